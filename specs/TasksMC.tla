------------------------------ MODULE TasksMC ------------------------------
(* A testbed-wide set is handed to all observers, each prepares its part, may  *)
(* pass it on through files, extracts and works it off. No observer ever runs  *)
(* what is not its own, all of it gets run, in order.                          *)
EXTENDS Tasks, TLC, Json
CONSTANTS Observers, Stranger
VARIABLES item, have, todo, done, phase
vars == <<item, have, todo, done, phase>>
SlotSets == SUBSET {1, 2, 3, 4, 5}
TypeOf(k) == IF k <= 2 THEN "FirmwareModTask" ELSE IF k <= 4 THEN "ProgrammingTask" ELSE "EmulationTask"
RECURSIVE AsSeq(_)
AsSeq(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x >= y IN <<m>> \o AsSeq(S \ {m})   \* reversed on purpose
SlotsOf(o, S) == LET q == AsSeq(S) IN [k \in DOMAIN q |-> [slot |-> SlotOrder[q[k]], type |-> TypeOf(q[k]), h |-> o \o SlotOrder[q[k]]]]
RECURSIVE Names(_)
Names(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : TRUE IN <<m>> \o Names(S \ {m})
Mk(f) == LET n == Names(DOMAIN f) IN
  [type |-> "TestbedTasks", h |-> "tb", slots |-> <<>>, sets |-> [k \in DOMAIN n |-> [obs |-> n[k], h |-> "set-" \o n[k], slots |-> SlotsOf(n[k], f[n[k]])]]]
All == Observers \union {Stranger}
Nothing == [type |-> "", h |-> "", slots |-> <<>>, sets |-> <<>>]
Init == /\ item \in {Mk(f) : f \in [Observers -> SlotSets]}
        /\ have = [o \in All |-> Nothing] /\ todo = [o \in All |-> <<>>] /\ done = [o \in All |-> <<>>]
        /\ phase = [o \in All |-> "idle"]
Prepare(o) == /\ phase[o] = "idle"
              /\ LET p == Prepared(item, o) IN
                 IF p.ok THEN have' = [have EXCEPT ![o] = Handed(item, o)] /\ phase' = [phase EXCEPT ![o] = "have"]
                 ELSE phase' = [phase EXCEPT ![o] = "refused"] /\ UNCHANGED have
              /\ UNCHANGED <<item, todo, done>>
\* preparing again what was prepared (with or without naming an observer) hands out the same
Again(o) == /\ phase[o] = "have" /\ have' = [have EXCEPT ![o] = Handed(have[o], o)] /\ phase' = [phase EXCEPT ![o] = "again"]
            /\ UNCHANGED <<item, todo, done>>
Extract(o) == /\ phase[o] \in {"have", "again"}
              /\ todo' = [todo EXCEPT ![o] = Extracted(have[o], TRUE).items] /\ phase' = [phase EXCEPT ![o] = "run"]
              /\ UNCHANGED <<item, have, done>>
Work(o) == /\ phase[o] = "run" /\ todo[o] # <<>>
           /\ done' = [done EXCEPT ![o] = Append(@, Head(todo[o]))] /\ todo' = [todo EXCEPT ![o] = Tail(@)]
           /\ UNCHANGED <<item, have, phase>>
Next == \E o \in All : Prepare(o) \/ Again(o) \/ Extract(o) \/ Work(o)
Spec == Init /\ [][Next]_vars
Own(o) == {<<s.type, s.h>> : s \in UNION {{item.sets[k].slots[m] : m \in DOMAIN item.sets[k].slots} : k \in {x \in DOMAIN item.sets : item.sets[x].obs = o}}}
Rank(t) == CASE t = "FirmwareModTask" -> 1 [] t = "ProgrammingTask" -> 2 [] OTHER -> 3
OnlyOwn == \A o \in All : {done[o][k] : k \in DOMAIN done[o]} \subseteq Own(o)
AllOwn == \A o \in All : (phase[o] = "run" /\ todo[o] = <<>>) => ({done[o][k] : k \in DOMAIN done[o]} = Own(o) /\ Len(done[o]) = Cardinality(Own(o)))
Ordered == \A o \in All : \A a, b \in DOMAIN done[o] : a < b => Rank(done[o][a][1]) <= Rank(done[o][b][1])
StrangerGetsNothing == phase[Stranger] \in {"idle", "refused"} /\ have[Stranger] = Nothing
SetsRefused == ~Extracted(item, TRUE).ok /\ Extracted(item, FALSE).ok
\* inputs for the real code
GInit == /\ Init
         /\ \A o \in DOMAIN have : TRUE
         /\ PrintT("GEN|" \o ToJson([sets |-> [k \in DOMAIN item.sets |-> [obs |-> item.sets[k].obs, slots |-> [m \in DOMAIN item.sets[k].slots |-> item.sets[k].slots[m].slot]]]]))
GSpec == GInit /\ [][FALSE]_vars
=============================================================================
