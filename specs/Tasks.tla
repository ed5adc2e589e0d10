------------------------------- MODULE Tasks -------------------------------
(* Contents: item [type, h (identity of content), slots (sequence of [slot, type, h], *)
(* sub-tasks of an observer's set), sets (sequence of [obs, h, slots], sets of a      *)
(* testbed-wide item)].                                                              *)
EXTENDS Integers, Sequences, FiniteSets
SlotOrder == <<"fw1_mod", "fw2_mod", "fw1_prog", "fw2_prog", "emulation">>
Single == {"EmulationTask", "HarvestTask", "FirmwareModTask", "ProgrammingTask"}
RECURSIVE InOrder(_, _)
InOrder(slots, k) ==
  IF k > Len(SlotOrder) THEN <<>>
  ELSE LET S == {i \in DOMAIN slots : slots[i].slot = SlotOrder[k]} IN
       (IF S = {} THEN <<>> ELSE <<slots[CHOOSE i \in S : TRUE]>>) \o InOrder(slots, k + 1)
SubTasks(slots) == LET o == InOrder(slots, 1) IN [k \in DOMAIN o |-> <<o[k].type, o[k].h>>]
Refused == [ok |-> FALSE, type |-> "", h |-> ""]
\* obs = "": no observer named
Prepared(it, obs) ==
  IF it.type = "" THEN Refused
  ELSE IF it.type = "TestbedTasks" /\ obs # ""
  THEN LET S == {k \in DOMAIN it.sets : it.sets[k].obs = obs} IN
       IF S = {} THEN Refused ELSE [ok |-> TRUE, type |-> "ObserverTasks", h |-> it.sets[CHOOSE k \in S : TRUE].h]
  ELSE [ok |-> TRUE, type |-> it.type, h |-> it.h]
\* the item a prepared wrapper stands for
Handed(it, obs) ==
  IF it.type = "TestbedTasks" /\ obs # ""
  THEN LET S == {k \in DOMAIN it.sets : it.sets[k].obs = obs} IN
       IF S = {} THEN [type |-> "", h |-> "", slots |-> <<>>, sets |-> <<>>]
       ELSE LET x == it.sets[CHOOSE k \in S : TRUE] IN [type |-> "ObserverTasks", h |-> x.h, slots |-> x.slots, sets |-> <<>>]
  ELSE it
Extracted(it, noSets) ==
  IF it.type = "ObserverTasks" THEN [ok |-> TRUE, items |-> SubTasks(it.slots)]
  ELSE IF it.type \in Single THEN [ok |-> TRUE, items |-> <<<<it.type, it.h>>>>]
  ELSE IF it.type = "TestbedTasks" /\ ~noSets THEN [ok |-> TRUE, items |-> <<<<it.type, it.h>>>>]
  ELSE [ok |-> FALSE, items |-> <<>>]
=============================================================================
