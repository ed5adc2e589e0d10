---------------------------- MODULE TestbedTrace ----------------------------
EXTENDS Testbed, TraceData, TLC
VARIABLES tid, l, st, vd
Chk(name, b) == IF b THEN {} ELSE {name}
Res(s, b, e) == [st |-> s, bad |-> b, exp |-> e]
BInit(i) == [tb |-> [shared |-> TRUE, neg |-> FALSE, obs |-> <<>>]]
Entry(o, t) == [has |-> Has(o, t), port |-> IF Has(o, t) THEN Port(o, t) ELSE "", tgt |-> IF Has(o, t) THEN t ELSE 0]
BApply(s, e) ==
  CASE e.op = "observer" -> Res(s, Chk("observer-verdict", e.obs.ok = ObserverOk(e.o)), ObserverOk(e.o))
    [] e.op = "testbed" -> LET want == TestbedOk(e.tb) IN Res([tb |-> e.tb], Chk("testbed-verdict", e.obs.ok = want), want)
    [] e.op = "lookup" -> LET want == Lookup(s.tb, e.t) IN Res(s, Chk("lookup", e.obs.id = want) \union Chk("altered", e.obs.same), want)
    [] e.op = "target" -> LET want == Entry(s.tb.obs[e.k], e.t) IN
         Res(s, Chk("has-target", e.obs.has = want.has) \union Chk("target-port", e.obs.port = want.port)
                \union Chk("target", e.obs.tgt = want.tgt), want)
    [] OTHER -> Res(s, {"unknown-op"}, e.op)
INSTANCE TraceBase WITH InitSt <- BInit, Apply <- BApply
=============================================================================
