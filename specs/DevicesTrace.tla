---------------------------- MODULE DevicesTrace ----------------------------
EXTENDS Devices, TraceData, TLC
VARIABLES tid, l, st, vd
Chk(name, b) == IF b THEN {} ELSE {name}
Res(s, b, e) == [st |-> s, bad |-> b, exp |-> e]
VInit(i) == [none |-> 0]
Set(x) == {x[i] : i \in DOMAIN x}
Warn(s, e) == LET o == e.obs w == Warned(e.devices) IN
  Res(s, Chk("answered", o.ok) \union
     (IF o.ok THEN Chk("warnings", Set(o.kinds) = w)
                   \union Chk("uptime-host", "uptime" \notin w \/ (Set(o.tired) # {} /\ Set(o.tired) \subseteq Tired(e.devices)))
                   \union Chk("delta-host", "time_delta" \notin w \/ (Set(o.late) # {} /\ Set(o.late) \subseteq Late(e.devices)))
      ELSE {}), w)
Csv(s, e) == LET o == e.obs IN
  Res(s, Chk("answered", o.ok) \union (IF o.ok THEN Chk("rows", o.rows = Len(e.devices) /\ o.hosts = [i \in DOMAIN e.devices |-> e.devices[i].host])
                                                     \union Chk("values", o.values) \union Chk("other-files", ~o.others) ELSE {}), "")
Collect(s, e) == LET o == e.obs IN
  Res(s, Chk("answered", o.ok) \union (IF o.ok THEN Chk("host", o.host) \union Chk("created", o.created) \union Chk("versions", o.versions) \union Chk("stored", o.stored) \union Chk("uptime", o.uptime) ELSE {}), "")
VApply(s, e) ==
  CASE e.op = "warn" -> Warn(s, e)
    [] e.op = "csv" -> Csv(s, e)
    [] e.op = "collect" -> Collect(s, e)
    [] OTHER -> Res(s, {"unknown-op"}, e.op)
INSTANCE TraceBase WITH InitSt <- VInit, Apply <- VApply
=============================================================================
