----------------------------- MODULE GpioTrace -----------------------------
EXTENDS Gpio, TraceData, TLC
VARIABLES tid, l, st, vd
Chk(name, b) == IF b THEN {} ELSE {name}
Res(s, b, e) == [st |-> s, bad |-> b, exp |-> e]
\* init: [has, tr, pins] pins: sequence of [name, num] in order of description
GInit(i) == i
Num(s, k) == s.pins[k].num
\* a name addresses the pin of that name, else the first pin whose name contains it
Pick(e) == IF e.exact # 0 THEN e.exact ELSE IF e.cands # <<>> THEN e.cands[1] ELSE 0
GApply(s, e) ==
  CASE e.op = "all" ->
         LET want == IF s.has THEN {<<s.pins[k].name, Waveform(s.tr, Num(s, k))>> : k \in DOMAIN s.pins} ELSE {}
             got  == {<<e.obs.wfs[k].name, e.obs.wfs[k].wf>> : k \in DOMAIN e.obs.wfs}
         IN  Res(s, Chk("waveforms", got = want) \union Chk("once-per-pin", Len(e.obs.wfs) = Cardinality(got))
                      \union Chk("recording-changed", ~e.obs.changed), want)
    [] e.op = "one" ->
         LET k == Pick(e)
             want == IF ~s.has \/ k = 0 THEN <<>> ELSE <<[name |-> e.name, wf |-> Waveform(s.tr, Num(s, k))]>>
         IN  Res(s, Chk("waveform-by-name", e.obs.wfs = want), want)
    [] e.op = "num" ->
         LET k == Pick(e) IN Res(s, Chk("pin-number", e.obs.num = (IF s.has /\ k # 0 THEN Num(s, k) ELSE -1)), k)
    [] e.op = "csv" ->
         LET want == Waveform(s.tr, Num(s, e.k)) IN
         Res(s, Chk("csv-rows", e.obs.rows = want) \union Chk("csv-header", e.obs.header), want)
    [] OTHER -> Res(s, {"unknown-op"}, e.op)
INSTANCE TraceBase WITH InitSt <- GInit, Apply <- GApply
=============================================================================
