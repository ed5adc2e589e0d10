---------------------------- MODULE CatalogTrace ----------------------------
EXTENDS Catalog, TraceData, TLC
VARIABLES tid, l, st, vd
Chk(name, b) == IF b THEN {} ELSE {name}
Res(s, b, e) == [st |-> s, bad |-> b, exp |-> e]
CInit(i) == [tokens |-> {}, hashes |-> {}]
Build(s, e) ==
  LET ok == Admitted(e.kind, e.p) o == e.obs IN
  Res(IF e.kind = "user" /\ o.ok /\ e.p.token = <<>> THEN [s EXCEPT !.tokens = @ \union {o.token}] ELSE s,
      Chk(IF ok THEN "refused-without-reason" ELSE "should-be-refused", o.ok = ok)
      \union Chk("input-altered", ~o.altered)
      \union (IF ok /\ o.ok THEN
         Chk("value-altered", o.same)
         \union (IF e.kind = "gpio" THEN Chk("controllable", o.ctrl = Controllable(e.p)) ELSE {})
         \union (IF e.kind = "target" THEN Chk("testbed-id", o.tbid = TestbedId(e.p)) \union Chk("mcus", o.mcus = Len(e.p.mcus)) ELSE {})
         \union (IF e.kind = "env" THEN Chk("owned", o.owned) ELSE {})
         \union (IF e.kind = "user" THEN Chk("token", IF e.p.token = <<>> THEN o.token \notin s.tokens /\ o.long ELSE o.token = e.p.token[1])
                                        \union Chk("secret-shown", ~o.shown) ELSE {})
         ELSE {}), [ok |-> ok])
\* passwords: [n, id]; equal ones have equal hashes, different ones different hashes
Pw(s, e) ==
  LET o == e.obs same == {h \in s.hashes : h[1] = e.id} IN
  Res(IF o.ok THEN [s EXCEPT !.hashes = @ \union {<<e.id, o.hash>>}] ELSE s,
      Chk("password", o.ok = Password(e.n))
      \union (IF o.ok THEN Chk("hash", (\A h \in same : h[2] = o.hash) /\ (\A h \in s.hashes \ same : h[2] # o.hash)) \union Chk("plain", ~o.plain) ELSE {}), Password(e.n))
CApply(s, e) ==
  CASE e.op = "build" -> Build(s, e)
    [] e.op = "password" -> Pw(s, e)
    [] OTHER -> Res(s, {"unknown-op"}, e.op)
INSTANCE TraceBase WITH InitSt <- CInit, Apply <- CApply
=============================================================================
