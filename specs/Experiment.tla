---------------------------- MODULE Experiment ----------------------------
(* World w:                                                                  *)
(*   tgt: sequence of [id, tbid, mcu1, mcu2 (0: none), active]               *)
(*   obs: sequence (testbed) of [id, name, active, cape ("none"|"on"|"off"), *)
(*                                ta, tb (target ids, 0: none)]              *)
(*   mcu: sequence of [id, def (mcu of its default firmware, 0: unknown)]    *)
(* Config c: [tids, cids (<<>>: none), fw1, fw2 (mcu the firmware is made    *)
(*   for, 0: no firmware), env (valid), neg (a time parameter is negative)]  *)
EXTENDS Integers, Sequences, FiniteSets
Range(s) == {s[k] : k \in DOMAIN s}
Exists(w, t) == \E k \in DOMAIN w.tgt : w.tgt[k].id = t
Tgt(w, t) == w.tgt[CHOOSE k \in DOMAIN w.tgt : w.tgt[k].id = t]
Mcu(w, m) == w.mcu[CHOOSE k \in DOMAIN w.mcu : w.mcu[k].id = m]
FwFits(w, fw, m) == IF m = 0 THEN TRUE ELSE IF fw = 0 THEN Mcu(w, m).def = m ELSE fw = m
\* behaviour for a firmware that addresses a processor the target does not have is not specified
Unspecified(w, c) == c.fw2 # 0 /\ \E k \in DOMAIN c.tids : Exists(w, c.tids[k]) /\ Tgt(w, c.tids[k]).mcu2 = 0
Holds(o, w, t) == t \in {o.ta, o.tb} /\ t # 0 /\ Tgt(w, t).active
Usable(o) == o.active /\ o.cape = "on"
Carriers(w, t) == {k \in DOMAIN w.obs : Usable(w.obs[k]) /\ Holds(w.obs[k], w, t)}
\* identity the target gets: custom id of same position, else what is derived from its own id
Eff(w, c, k) == IF c.cids = <<>> THEN Tgt(w, c.tids[k]).tbid ELSE c.cids[k]

ConfigOk(w, c) ==
  /\ c.env /\ ~c.neg
  /\ \A k \in DOMAIN c.tids : Exists(w, c.tids[k])
  /\ \A k \in DOMAIN c.tids : FwFits(w, c.fw1, Tgt(w, c.tids[k]).mcu1) /\ FwFits(w, c.fw2, Tgt(w, c.tids[k]).mcu2)
  /\ (c.cids # <<>> => Cardinality(Range(c.cids)) >= Cardinality(Range(c.tids)))

Slots(cs) == {<<a, b>> : a \in DOMAIN cs, b \in 1 .. 130} \cap UNION {{<<a, b>> : b \in DOMAIN cs[a].tids} : a \in DOMAIN cs}
Admitted(w, cs, neg) ==
  /\ ~neg
  /\ \A a \in DOMAIN cs : ConfigOk(w, cs[a])
  /\ LET S == UNION {{<<a, b>> : b \in DOMAIN cs[a].tids} : a \in DOMAIN cs}
         T(x) == cs[x[1]].tids[x[2]]
     IN  /\ \A x, y \in S : x # y => T(x) # T(y)
         /\ \A x \in S : cs[x[1]].cids = <<>> \/ x[2] <= Len(cs[x[1]].cids)
         /\ \A x, y \in S : x # y => Eff(w, cs[x[1]], x[2]) # Eff(w, cs[y[1]], y[2])
         /\ \A x \in S : Carriers(w, T(x)) # {}
         /\ \A x, y \in S : x # y => Carriers(w, T(x)) \cap Carriers(w, T(y)) = {}

\* mapping: one entry per addressed target, in order
RECURSIVE Flat(_, _)
Flat(cs, a) == IF a > Len(cs) THEN <<>> ELSE [b \in DOMAIN cs[a].tids |-> <<a, b>>] \o Flat(cs, a + 1)
Carrier(w, t) == w.obs[CHOOSE k \in Carriers(w, t) : TRUE]
Task(w, cs, x) ==
  LET c == cs[x[1]]  t == c.tids[x[2]]  o == Carrier(w, t) IN
  [obs |-> o.name, port |-> IF o.ta = t THEN "A" ELSE "B", cfg |-> x[1], id |-> Eff(w, c, x[2]),
   order |-> (IF c.fw1 # 0 THEN <<"fw1_mod">> ELSE <<>>) \o (IF c.fw2 # 0 THEN <<"fw2_mod">> ELSE <<>>)
             \o (IF c.fw1 # 0 THEN <<"fw1_prog">> ELSE <<>>) \o (IF c.fw2 # 0 THEN <<"fw2_prog">> ELSE <<>>) \o <<"emulation">>]
Tasks(w, cs) == LET f == Flat(cs, 1) IN [k \in DOMAIN f |-> Task(w, cs, f[k])]
=============================================================================
