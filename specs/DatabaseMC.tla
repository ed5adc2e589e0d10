----------------------------- MODULE DatabaseMC -----------------------------
(* Design: two maps (by name, by id) and snapshot iterators, against the log.  *)
EXTENDS Database, TLC, Json
CONSTANTS K, N, MaxOps
VARIABLES log, byname, byid, its, nops
vars == <<log, byname, byid, its, nops>>
None == [key |-> "", name |-> "", id |-> 0, tag |-> 0]
Init == log = <<>> /\ byname = <<>> /\ byid = <<>> /\ its = <<>> /\ nops = 0
\* ordered maps as sequences of entries; replacing keeps the position
PutN(m, e) == IF \E i \in DOMAIN m : m[i].key = e.key THEN [i \in DOMAIN m |-> IF m[i].key = e.key THEN e ELSE m[i]] ELSE Append(m, e)
PutI(m, e) == IF \E i \in DOMAIN m : m[i].id = e.id THEN [i \in DOMAIN m |-> IF m[i].id = e.id THEN e ELSE m[i]] ELSE Append(m, e)
Insert == /\ nops < MaxOps /\ nops' = nops + 1
          /\ \E k \in K, i \in N : LET e == [key |-> k, name |-> k, id |-> i, tag |-> nops] IN
               log' = Append(log, e) /\ byname' = PutN(byname, e) /\ byid' = PutI(byid, e)
          /\ UNCHANGED its
Open == /\ nops < MaxOps /\ Len(its) < 2 /\ nops' = nops + 1
        /\ its' = Append(its, [snap |-> byname, pos |-> 0, it |-> IterNew(log), ok |-> TRUE])
        /\ UNCHANGED <<log, byname, byid>>
Next1 == /\ nops < MaxOps /\ nops' = nops + 1
         /\ \E h \in DOMAIN its :
              /\ its[h].pos < Len(its[h].snap)
              /\ LET e == its[h].snap[its[h].pos + 1] IN
                 its' = [its EXCEPT ![h].pos = @ + 1, ![h].it.seen = @ \union {e.key},
                                    ![h].ok = @ /\ <<e.key, e.tag>> \in IterTags(log, its[h].it)]
         /\ UNCHANGED <<log, byname, byid>>
Spec == Init /\ [][Insert \/ Open \/ Next1]_vars
Agree == /\ {m.key : m \in Entries(byname)} = Keys(log) /\ \A i \in DOMAIN byname : byname[i] = ByKey(log, byname[i].key)
         /\ {m.id : m \in Entries(byid)} = Ids(log) /\ \A i \in DOMAIN byid : byid[i] = ById(log, byid[i].id)
IterOk == \A h \in DOMAIN its : its[h].ok /\ (its[h].pos = Len(its[h].snap) => IterMayEnd(log, its[h].it))
\* behaviours for the code
VARIABLE g
Acts == {"insert", "open", "next", "taint", "look"}
GInit == /\ Init
         /\ g \in [1 .. 5 -> {"insert", "reinsert", "open", "next0", "next1", "taint"}]
         /\ PrintT("GEN|" \o ToJson(g))
GSpec == GInit /\ [][FALSE]_<<g, vars>>
MSpec == (Init /\ g = 0) /\ [][(Insert \/ Open \/ Next1) /\ g' = g]_<<g, vars>>
=============================================================================
