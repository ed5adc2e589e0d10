"""Record that a seed is caught by the check of its property: addcaught.py ID..."""
import json
import os
import sys

R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = R + "/tools/design/caught.json"
with open(p) as f:
    d = json.load(f)
for i in sys.argv[1:]:
    with open(f"{R}/seeded/{i}/meta.json") as f:
        d[i] = [json.load(f)["property"]]
with open(p, "w") as f:
    json.dump(dict(sorted(d.items())), f, indent=1)
