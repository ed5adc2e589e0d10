----------------------------- MODULE AdmitTrace -----------------------------
EXTENDS Admit, TraceData, TLC
VARIABLES tid, l, st, vd
Chk(name, b) == IF b THEN {} ELSE {name}
Res(s, b, e) == [st |-> s, bad |-> b, exp |-> e]
AInit(i) == [none |-> 0]
Build(s, e) ==
  LET ok == Admitted(e.kind, e.p) o == e.obs IN
  Res(s, Chk(IF ok THEN "refused-without-reason" ELSE "should-be-refused", o.ok = ok)
         \union Chk("input-altered", ~o.altered)
         \union (IF ok /\ o.ok THEN Chk("value-altered", o.same)
                                    \union (IF e.kind = "event" THEN Chk("instants", o.instants = Instants(e.p)) ELSE {})
                                    \union (IF e.kind \in {"emulation", "harvest"} THEN Chk("start-instant", o.start = e.p.start) ELSE {})
                 ELSE {}),
      [ok |-> ok])
Act(s, e) == LET ok == Actuation(e.events) o == e.obs IN
  Res(s, Chk(IF ok THEN "refused-without-reason" ELSE "should-be-refused", o.ok = ok)
         \union (IF ok /\ o.ok THEN Chk("pins", {o.pins[i] : i \in DOMAIN o.pins} = {e.names[i] : i \in DOMAIN e.names}) ELSE {}), [ok |-> ok])
\* a noted instant: shown clock reading (s relative to a base), offset of local zone and of the notation
Inst(s, e) == Res(s, Chk("instant", e.obs.ok /\ e.obs.t = Meant(e.shown, e.naive, e.local, e.given)), Meant(e.shown, e.naive, e.local, e.given))
Zone(s, e) == Res(s, Chk("offset-in-effect", e.obs.off = e.local) \union Chk("now", e.obs.now) \union Chk("date", e.obs.date), e.local)
AApply(s, e) ==
  CASE e.op = "build" -> Build(s, e)
    [] e.op = "actuation" -> Act(s, e)
    [] e.op = "instant" -> Inst(s, e)
    [] e.op = "zone" -> Zone(s, e)
    [] OTHER -> Res(s, {"unknown-op"}, e.op)
INSTANCE TraceBase WITH InitSt <- AInit, Apply <- AApply
=============================================================================
