----------------------------- MODULE TestbedMC -----------------------------
(* Acceptance as a scan that collects what was seen, lookup as a scan over the *)
(* observers: both equal their declarative definition, for any order.          *)
EXTENDS Testbed, TLC, Json
CONSTANTS NObs
VARIABLES tb, pc, i, ids, names, ips, macs, ports, capes, tgts, t, found
vars == <<tb, pc, i, ids, names, ips, macs, ports, capes, tgts, t, found>>
First == {[id |-> 1, name |-> "o1", ip |-> 1, mac |-> 1, port |-> 1, active |-> a, cape |-> c, con |-> TRUE, ta |-> 1, tb |-> y, aon |-> TRUE, bon |-> b]
            : a \in BOOLEAN, c \in {0, 1}, y \in {0, 1, 2}, b \in BOOLEAN}
Other(k) == {[id |-> i1, name |-> n, ip |-> ip, mac |-> m, port |-> p, active |-> TRUE, cape |-> c, con |-> TRUE, ta |-> x, tb |-> 3, aon |-> TRUE, bon |-> TRUE]
            : i1 \in {1, k}, n \in {"o1", "o" \o ToString(k)}, ip \in {1, k}, m \in {1, k}, p \in {1, k}, c \in {0, 1, k}, x \in {0, 2}}
  \union {[id |-> k, name |-> "o" \o ToString(k), ip |-> k, mac |-> k, port |-> k, active |-> a, cape |-> c, con |-> co, ta |-> x, tb |-> y, aon |-> ta, bon |-> TRUE]
            : a \in BOOLEAN, c \in {0, k}, co \in BOOLEAN, x \in {0, 1, 2}, y \in {0, 2, 3}, ta \in BOOLEAN}
Third == {[id |-> 3, name |-> "o3", ip |-> 3, mac |-> 3, port |-> p, active |-> TRUE, cape |-> c, con |-> TRUE, ta |-> x, tb |-> 0, aon |-> TRUE, bon |-> TRUE]
            : p \in {2, 3}, c \in {2, 3}, x \in {1, 2, 3, 4}}
Lists == {<<a>> : a \in First} \union {<<a, b>> : a \in First, b \in Other(2)}
         \union (IF NObs > 2 THEN {<<a, b, c>> : a \in First, b \in {x \in Other(2) : x.id = 2 /\ x.name = "o2" /\ x.ip = 2}, c \in Third} ELSE {})
Init == /\ \E o \in Lists, s \in BOOLEAN, n \in BOOLEAN : (Len(o) > 1 => s /\ ~n) /\ tb = [shared |-> s, neg |-> n, obs |-> o]
        /\ pc = "scan" /\ i = 1 /\ ids = {} /\ names = {} /\ ips = {} /\ macs = {} /\ ports = {} /\ capes = {} /\ tgts = {}
        /\ t \in 0 .. 4 /\ found = -1
O == tb.obs[i]
Clash == \/ ~ObserverOk(O) \/ O.id \in ids \/ O.name \in names \/ O.ip \in ips \/ O.mac \in macs \/ O.port \in ports
         \/ (O.cape # 0 /\ O.cape \in capes) \/ ({O.ta, O.tb} \cap tgts) # {} \/ (O.ta # 0 /\ O.ta = O.tb)
Scan == /\ pc = "scan"
        /\ IF i > Len(tb.obs) THEN /\ pc' = IF tb.shared /\ ~tb.neg THEN "ok" ELSE "bad"
                                   /\ i' = 1 /\ UNCHANGED <<ids, names, ips, macs, ports, capes, tgts>>
           ELSE IF Clash THEN pc' = "bad" /\ UNCHANGED <<i, ids, names, ips, macs, ports, capes, tgts>>
           ELSE /\ ids' = ids \union {O.id} /\ names' = names \union {O.name} /\ ips' = ips \union {O.ip}
                /\ macs' = macs \union {O.mac} /\ ports' = ports \union {O.port}
                /\ capes' = capes \union ({O.cape} \ {0}) /\ tgts' = tgts \union ({O.ta, O.tb} \ {0})
                /\ i' = i + 1 /\ pc' = pc
        /\ UNCHANGED <<tb, t, found>>
Look == /\ pc = "ok" /\ found = -1
        /\ IF i > Len(tb.obs) THEN found' = 0 /\ i' = i
           ELSE IF Usable(O) /\ Has(O, t) THEN found' = O.id /\ i' = i ELSE i' = i + 1 /\ found' = found
        /\ UNCHANGED <<tb, pc, ids, names, ips, macs, ports, capes, tgts, t>>
Next == Scan \/ Look
Spec == Init /\ [][Next]_vars
Rev(s) == [k \in DOMAIN s |-> s[Len(s) + 1 - k]]
VerdictExact == /\ pc = "ok" => TestbedOk(tb)
                /\ pc = "bad" => ~TestbedOk(tb)
LookupExact == found >= 0 => found = Lookup(tb, t)
OneCarrier == pc = "ok" => Cardinality(Carriers(tb, t)) <= 1
OrderFree == (pc = "ok" /\ i = 1) => LET r == [tb EXCEPT !.obs = Rev(@)] IN TestbedOk(r) /\ Lookup(r, t) = Lookup(tb, t)
\* testbeds for the real code
GInit == Init /\ t = 0 /\ PrintT("GEN|" \o ToJson(tb))
GSpec == GInit /\ [][FALSE]_vars

=============================================================================
