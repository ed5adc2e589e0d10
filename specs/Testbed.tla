------------------------------ MODULE Testbed ------------------------------
(* Testbed tb: [shared, neg (preparation time is negative), obs: sequence of   *)
(*   [id, name, ip, mac, port, active, cape (id, 0: none), con (cape active),  *)
(*    ta, tb (target ids, 0: none), aon, bon (target active)]]                 *)
(* Addresses are given in canonical form: notation does not make a difference. *)
EXTENDS Integers, Sequences, FiniteSets
ObserverOk(o) == o.cape # 0 \/ (o.ta = 0 /\ o.tb = 0)
Slots(tb) == UNION {{<<k, "A", tb.obs[k].ta>>, <<k, "B", tb.obs[k].tb>>} : k \in DOMAIN tb.obs}
Pairwise(tb) == \A a, b \in DOMAIN tb.obs : a # b =>
   LET x == tb.obs[a]  y == tb.obs[b] IN
   /\ x.id # y.id /\ x.name # y.name /\ x.ip # y.ip /\ x.mac # y.mac /\ x.port # y.port
   /\ (x.cape # 0 => x.cape # y.cape)
TargetsOnce(tb) == \A p, q \in Slots(tb) : (p # q /\ p[3] # 0) => p[3] # q[3]
TestbedOk(tb) == /\ tb.shared /\ ~tb.neg /\ tb.obs # <<>>
                 /\ \A k \in DOMAIN tb.obs : ObserverOk(tb.obs[k])
                 /\ Pairwise(tb) /\ TargetsOnce(tb)
Has(o, t) == t # 0 /\ ((o.ta = t /\ o.aon) \/ (o.tb = t /\ o.bon))
Port(o, t) == IF o.ta = t THEN "A" ELSE "B"
Usable(o) == o.active /\ o.cape # 0 /\ o.con
Carriers(tb, t) == {k \in DOMAIN tb.obs : Usable(tb.obs[k]) /\ Has(tb.obs[k], t)}
\* 0: refused
Lookup(tb, t) == LET K == Carriers(tb, t) IN IF K = {} THEN 0 ELSE tb.obs[CHOOSE k \in K : TRUE].id
=============================================================================
