"""Developer aid: short view of a replay file."""
import json, sys
for p in sys.argv[1:]:
    d = json.load(open(p))
    print(p, d["why"])
    det = d["detail"]
    if isinstance(det, str):
        print(det[-1500:]); continue
    print("EXP", str(det.get("expected"))[:1200])
    print("OBS", json.dumps(det.get("observed"))[:1500])
