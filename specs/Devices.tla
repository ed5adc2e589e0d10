------------------------------- MODULE Devices -------------------------------
(* Overview of devices: host, uptime in s, creation in ms, version per software *)
(* ("" = not installed).  Warnings are exactly the conditions that hold.       *)
EXTENDS Integers, Sequences, FiniteSets
Software == {"h5py", "numpy", "pydantic", "python", "shepherd_core", "shepherd_sheep", "yaml", "zstandard"}
Dev(ds) == {ds[i] : i \in DOMAIN ds}
Tired(ds) == {d.host : d \in {x \in Dev(ds) : x.up > 108000}}
Earliest(ds) == CHOOSE t \in {d.at : d \in Dev(ds)} : \A d \in Dev(ds) : t <= d.at
Late(ds) == {d.host : d \in {x \in Dev(ds) : x.at - Earliest(ds) > 10000}}
Versions(ds, s) == {d.ver[s] : d \in {x \in Dev(ds) : x.ver[s] # ""}}
Mixed(ds) == {s \in Software : Cardinality(Versions(ds, s)) > 1}
Warned(ds) == (IF Tired(ds) # {} THEN {"uptime"} ELSE {}) \union (IF Late(ds) # {} THEN {"time_delta"} ELSE {}) \union Mixed(ds)
=============================================================================
