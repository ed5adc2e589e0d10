--------------------------- MODULE ExperimentMC ---------------------------
(* Admission as a sequence of scans with early refusal (configs first, then    *)
(* identities, then observers) equals the declarative verdict, which does not  *)
(* depend on the order of configs. Accepted experiments are then executed: the *)
(* observers work off their task lists concurrently.                           *)
EXTENDS Experiment, TLC
CONSTANTS MaxT
VARIABLES w, cs, pc, i, j, seenT, seenC, seenO, prog, emu, files
vars == <<w, cs, pc, i, j, seenT, seenC, seenO, prog, emu, files>>
TgtDef == <<[id |-> 1, tbid |-> 1, mcu1 |-> 1, mcu2 |-> 2, active |-> TRUE],
            [id |-> 2, tbid |-> 2, mcu1 |-> 1, mcu2 |-> 0, active |-> TRUE],
            [id |-> 3, tbid |-> 1, mcu1 |-> 1, mcu2 |-> 0, active |-> TRUE]>>
Worlds ==
  { [tgt |-> [k \in DOMAIN TgtDef |-> IF k = 2 THEN [TgtDef[k] EXCEPT !.active = a] ELSE TgtDef[k]],
     obs |-> <<[id |-> 1, name |-> "o1", active |-> TRUE, cape |-> "on", ta |-> 1, tb |-> t2],
               [id |-> 2, name |-> "o2", active |-> b, cape |-> cp, ta |-> 3, tb |-> IF t2 = 2 THEN 0 ELSE 2],
               [id |-> 3, name |-> "o3", active |-> TRUE, cape |-> "none", ta |-> 0, tb |-> 0]>>,
     mcu |-> <<[id |-> 1, def |-> 1], [id |-> 2, def |-> d]>>]
    : a \in BOOLEAN, b \in BOOLEAN, cp \in {"on", "off"}, t2 \in {0, 2}, d \in {0, 1, 2} }
TidSeqs == {<<a>> : a \in 1 .. MaxT} \union {<<a, b>> : a, b \in 1 .. 3}
Configs == { c \in [tids : TidSeqs, cids : {<<>>, <<7>>, <<7, 8>>, <<2, 2, 9>>}, fw1 : {0, 1, 2}, fw2 : {0, 2}, env : {TRUE}, neg : {FALSE}] :
             c.fw1 # 2 \/ c.cids = <<>> }
Second == { c \in Configs : c.fw1 = 1 /\ c.fw2 = 0 /\ Len(c.tids) = 1 }
Init == /\ w \in Worlds
        /\ cs \in {<<c>> : c \in Configs} \union {<<c, d>> : c \in {x \in Configs : x.fw1 = 1}, d \in Second}
        /\ \A k \in DOMAIN cs : ~Unspecified(w, cs[k])
        /\ pc = "config" /\ i = 1 /\ j = 1 /\ seenT = {} /\ seenC = {} /\ seenO = {}
        /\ prog = <<>> /\ emu = {} /\ files = {}
frame == UNCHANGED <<w, cs, prog, emu, files>>
NextSlot(after) ==   \* advance over all (config, target) slots
  IF j < Len(cs[i].tids) THEN j' = j + 1 /\ i' = i /\ pc' = pc
  ELSE IF i < Len(cs) THEN i' = i + 1 /\ j' = 1 /\ pc' = pc
  ELSE i' = 1 /\ j' = 1 /\ pc' = after
C == cs[i]
T == cs[i].tids[j]
ScanConfig ==
  /\ pc = "config"
  /\ IF ConfigOk(w, C) THEN (IF i < Len(cs) THEN i' = i + 1 /\ pc' = pc ELSE i' = 1 /\ pc' = "ids") ELSE pc' = "refused" /\ i' = i
  /\ UNCHANGED <<j, seenT, seenC, seenO>> /\ frame
ScanIds ==
  /\ pc = "ids"
  /\ LET e == Eff(w, C, j) IN
     IF T \in seenT \/ j > (IF C.cids = <<>> THEN j ELSE Len(C.cids)) \/ e \in seenC
     THEN pc' = "refused" /\ UNCHANGED <<i, j, seenT, seenC>>
     ELSE seenT' = seenT \union {T} /\ seenC' = seenC \union {e} /\ NextSlot("obs")
  /\ UNCHANGED seenO /\ frame
FirstCarrier(t) == LET K == Carriers(w, t) IN IF K = {} THEN 0 ELSE CHOOSE k \in K : \A l \in K : k <= l
ScanObs ==
  /\ pc = "obs"
  /\ LET k == FirstCarrier(T) IN
     IF k = 0 \/ k \in seenO THEN pc' = "refused" /\ UNCHANGED <<i, j, seenO>>
     ELSE seenO' = seenO \union {k} /\ NextSlot("accepted")
  /\ UNCHANGED <<seenT, seenC>> /\ frame
\* execution: prog[k] = position in task list of k-th task set
Plan == Tasks(w, cs)
Prepare == pc = "accepted" /\ pc' = "run" /\ prog' = [k \in DOMAIN Plan |-> 0]
           /\ UNCHANGED <<w, cs, i, j, seenT, seenC, seenO, emu, files>>
Outputs(k, name) == IF name = "emulation" THEN {<<"emu", Plan[k].obs>>} ELSE IF name = "fw1_mod" THEN {<<"fw1", Plan[k].obs>>}
                    ELSE IF name = "fw2_mod" THEN {<<"fw2", Plan[k].obs>>} ELSE {}
Step(k) ==
  /\ pc = "run" /\ prog[k] < Len(Plan[k].order)
  /\ LET name == Plan[k].order[prog[k] + 1] IN
     /\ files' = files \union {<<x, k>> : x \in Outputs(k, name)}
     /\ emu' = IF name = "emulation" THEN emu \union {<<k, Plan[k].id, prog[k]>>} ELSE emu
  /\ prog' = [prog EXCEPT ![k] = @ + 1]
  /\ UNCHANGED <<w, cs, pc, i, j, seenT, seenC, seenO>>
Next == ScanConfig \/ ScanIds \/ ScanObs \/ Prepare \/ \E k \in DOMAIN prog : Step(k)
Spec == Init /\ [][Next]_vars
Verdict == /\ pc = "refused" => ~Admitted(w, cs, FALSE)
           /\ pc = "accepted" => Admitted(w, cs, FALSE)
Swap == IF Len(cs) = 2 THEN <<cs[2], cs[1]>> ELSE cs
OrderFree == pc = "config" => (Admitted(w, cs, FALSE) <=> Admitted(w, Swap, FALSE))
NoCollision == \A x, y \in files : x[1] = y[1] => x[2] = y[2]
DistinctIdentities == \A x, y \in emu : x[1] # y[1] => x[2] # y[2]
ProgrammedFirst == \A x \in emu : x[3] = Len(Plan[x[1]].order) - 1
OnePerTarget == pc = "run" => Len(Plan) = Cardinality(seenT)
=============================================================================
