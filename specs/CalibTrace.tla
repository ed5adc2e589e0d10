----------------------------- MODULE CalibTrace -----------------------------
EXTENDS Calib, TraceData, TLC
VARIABLES tid, l, st, vd
Chk(name, b) == IF b THEN {} ELSE {name}
Res(s, b, e) == [st |-> s, bad |-> b, exp |-> e]
CaInit(i) == i          \* [cape |-> slot -> pair]
Sub(r) == [s \in DOMAIN r |-> [g |-> r[s].g, o |-> r[s].o]]
Unity == [e |-> 20, g |-> 0, o |-> 0]
CaApply(s, e) ==
  CASE e.op = "to_si" ->
         LET want == [k \in DOMAIN e.raw |-> ToSi(e.p, e.raw[k], e.neg)] IN
         Res(s, Chk("values", e.obs.y = want) \union Chk("argument-untouched", e.obs.same), want)
    [] e.op = "to_raw" ->
         LET want == [k \in DOMAIN e.si |-> ToRaw(e.p, e.si[k])] IN
         Res(s, Chk("values", e.obs.y = want) \union Chk("argument-untouched", e.obs.same), want)
    [] e.op = "round-trip" -> Res(s, Chk("reading", e.obs.y = e.raw), <<>>)
    [] e.op = "encode" -> Res(s, Chk("bytes", e.obs.w = Encode(s.cape)), Encode(s.cape))
    [] e.op = "decode" -> Res(s, Chk("accepts-exact-length-only", e.obs.ok = (e.len = 128)) \union (IF e.obs.ok THEN Chk("slots", e.obs.cape = Decode(e.w)) ELSE {}), Decode(e.w))
    [] e.op = "store" -> Res(s, Chk("slots", e.obs.cape = Sub(s.cape)) \union Chk("equal", e.obs.eq) \union Chk("description", e.obs.info), Sub(s.cape))
    [] e.op = "series" -> LET want == Sub(Series(s.cape, e.dev, e.portA)) IN Res(s, Chk("channel", e.obs.pairs = want), want)
    [] e.op = "sysfs" ->
         LET c == s.cape
             a == IF e.dev = "harvester" THEN <<c.adc_C_Hrv, c.adc_V_Sense, c.dac_V_Hrv>> ELSE <<c.adc_C_A, Unity, c.dac_V_A>>
         IN  IF e.obs.ok THEN Res(s, Chk("range", ~AnyTooBig(a[1], a[2], a[3])) \union Regs(a[1], a[2], a[3], e.obs.reg), a)
             ELSE Res(s, Chk("refused", ~AllFit(a[1], a[2], a[3])), a)
    [] e.op = "hw" -> Res(s, Chk("codes", \A k \in DOMAIN e.x : HwOk(e.kind, e.x[k], e.obs.y[k])), <<>>)
    [] e.op = "measure" -> Res(s, Chk("admission", e.obs.ok = ~e.bad) \union (IF e.obs.ok /\ ~e.bad THEN Chk("slots", \A k \in DOMAIN e.want : AbsI(e.obs.cape[k].g - e.want[k].g) <= 1 /\ AbsI(e.obs.cape[k].o - e.want[k].o) <= 1 + AbsI(e.want[k].g) \div 1000) ELSE {}), e.want)
    [] OTHER -> Res(s, {"unknown-op"}, e.op)
INSTANCE TraceBase WITH InitSt <- CaInit, Apply <- CaApply
=============================================================================
