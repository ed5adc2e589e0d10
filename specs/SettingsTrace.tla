--------------------------- MODULE SettingsTrace ---------------------------
EXTENDS Settings, TraceData, TLC
VARIABLES tid, l, st, vd
Chk(name, b) == IF b THEN {} ELSE {name}
Res(s, b, e) == [st |-> s, bad |-> b, exp |-> e]
SInit(i) == Fresh
Verdict(ok, o) == Chk(IF ok THEN "refused-without-reason" ELSE "should-be-refused", o.ok = ok) \union Chk("input-altered", ~o.altered)
\* a source on its own ("src") or adjusted from the one before ("adjust")
Source(s, e, from) ==
  LET ok == SrcOk(e.p)  new == Applied(from, e.p.set) IN
  Res(IF ok THEN new ELSE s,
      Verdict(ok, e.obs) \union (IF ok /\ e.obs.ok THEN {f \in Fields : e.obs.vals[f] # new[f]} \union Chk("tables", e.obs.tables) \union Chk("registers", e.obs.regs) ELSE {}), ok)
SApply(s, e) ==
  CASE e.op = "src" -> Source(s, e, Fresh)
    [] e.op = "adjust" -> Source(s, e, s)
    [] e.op = "build" -> LET ok == Admitted(e.kind, e.p) IN
         Res(s, Verdict(ok, e.obs) \union (IF ok /\ e.obs.ok THEN Chk("value-altered", e.obs.same) ELSE {}), ok)
    [] e.op = "spoil" -> Res(s, Chk(IF Survives(e.how) THEN "refused-without-reason" ELSE "should-be-refused", e.obs.ok = Survives(e.how))
                                \union (IF Survives(e.how) /\ e.obs.ok THEN Chk("value-altered", e.obs.same) ELSE {}), Survives(e.how))
    [] OTHER -> Res(s, {"unknown-op"}, e.op)
INSTANCE TraceBase WITH InitSt <- SInit, Apply <- SApply
=============================================================================
