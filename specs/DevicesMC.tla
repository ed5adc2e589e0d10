------------------------------ MODULE DevicesMC ------------------------------
(* Devices report one after the other; a collector that only keeps the         *)
(* earliest time, the latest time and one version per software gives the same  *)
(* warnings as the definitions, in any order of arrival.                       *)
EXTENDS Devices, TLC, Json
CONSTANTS MaxN
VARIABLES ds, first, last, tired, ver, mixed
vars == <<ds, first, last, tired, ver, mixed>>
V(a, b) == [s \in Software |-> IF s = "numpy" THEN a ELSE IF s = "yaml" THEN b ELSE "1"]
Init == ds = <<>> /\ first = 0 /\ last = 0 /\ tired = FALSE /\ ver = V("", "") /\ mixed = {}
Join == /\ Len(ds) < MaxN
        /\ \E up \in {1, 108000, 108001}, at \in {0, 10000, 10001, 20001}, a \in {"", "1", "2"}, b \in {"", "1"} :
             LET d == [host |-> ToString(Len(ds)), up |-> up, at |-> at, ver |-> V(a, b)] IN
             /\ ds' = Append(ds, d)
             /\ first' = IF ds = <<>> \/ at < first THEN at ELSE first
             /\ last' = IF ds = <<>> \/ at > last THEN at ELSE last
             /\ tired' = (tired \/ up > 108000)
             /\ mixed' = mixed \union {s \in Software : ver[s] # "" /\ d.ver[s] # "" /\ ver[s] # d.ver[s]}
             /\ ver' = [s \in Software |-> IF ver[s] = "" THEN d.ver[s] ELSE ver[s]]
Spec == Init /\ [][Join]_vars
Same == ds # <<>> => (Warned(ds) = (IF tired THEN {"uptime"} ELSE {}) \union (IF last - first > 10000 THEN {"time_delta"} ELSE {}) \union mixed)
VARIABLE g
Gen == [host : {"a"}, up : {1, 108000, 108001}, at : {0, 10000, 10001}, a : {"", "1", "2"}]
GInit == /\ Init /\ g \in (UNION {[1 .. n -> Gen] : n \in 1 .. 2}) /\ PrintT("GEN|" \o ToJson([d |-> g]))
GSpec == GInit /\ [][FALSE]_<<g, vars>>
MSpec == (Init /\ g = 0) /\ [][Join /\ g' = g]_<<g, vars>>
=============================================================================
