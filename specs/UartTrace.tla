------------------------------ MODULE UartTrace ------------------------------
EXTENDS Uart, TraceData, TLC
VARIABLES tid, l, st, vd
Chk(name, b) == IF b THEN {} ELSE {name}
Res(s, b, e) == [st |-> s, bad |-> b, exp |-> e]
\* init: [n, t0, fs (sequence of [t, s])]
UInit(i) == i
Pairs(fs) == [k \in DOMAIN fs |-> <<fs[k].t, fs[k].s>>]
LinePairs(ls) == [k \in DOMAIN ls |-> <<ls[k][1].t, [j \in DOMAIN ls[k] |-> ls[k][j].s]>>]
UApply(s, e) ==
  CASE e.op = "wave" ->       \* waveform handed to the decoder (ground truth produced by the driver)
         LET want == Wave(s.t0, s.fs, s.n) IN Res(s, Chk("waveform", e.obs.w = want), want)
    [] e.op = "open" ->       \* settings the decoder works with
         Res(s, Chk("baud", e.obs.baudok) \union Chk("inversion", e.obs.inv = e.inv), e.inv)
    [] e.op = "symbols" ->
         Res(s, Chk("symbols", e.obs.sy = Pairs(Decode(Wave(s.t0, s.fs, s.n), s.n))), Pairs(s.fs))
    [] e.op = "lines" ->
         LET want == LinePairs(Lines(s.fs, CR, LF)) IN Res(s, Chk("lines", e.obs.ln = want), want)
    [] e.op = "text" ->
         LET want == [k \in DOMAIN s.fs |-> s.fs[k].s] IN Res(s, Chk("text", e.obs.tx = want), want)
    [] e.op = "data" -> Res(s, Chk("caller-data-modified", e.obs.same), TRUE)
    [] e.op = "refuse" -> Res(s, Chk("refused", e.obs.refused = e.want), e.want)
    [] OTHER -> Res(s, {"unknown-op"}, e.op)
INSTANCE TraceBase WITH InitSt <- UInit, Apply <- UApply
=============================================================================
