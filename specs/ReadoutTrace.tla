---------------------------- MODULE ReadoutTrace ----------------------------
EXTENDS Readout, TraceData, TLC
VARIABLES tid, l, st, vd

Chk(name, b) == IF b THEN {} ELSE {name}
Res(s, b, e) == [st |-> s, bad |-> b, exp |-> e]

RInit(i) == [r |-> i.r, cal |-> i.cal, it |-> [k \in 1 .. 3 |-> Idle]]

PullStep(s, e) ==
  LET it == s.it[e.k] o == e.obs IN
  IF ~HasNext(it) THEN Res(s, Chk("delivers-beyond-range", o.kind = "stop"), "stop")
  ELSE LET w == Cols(s.r, s.cal, it)
           s2 == [s EXCEPT !.it = [s.it EXCEPT ![e.k] = Advance(it)]]
       IN IF o.kind # "block" THEN Res(s2, {"block-missing"}, w)
          ELSE Res(s2, Chk("voltage", o.v = w.v) \union Chk("current", o.c = w.c)
                       \union Chk("time", o.t = w.t), w)

RApply(s, e) ==
  CASE e.op = "start" -> Res([s EXCEPT !.it = [s.it EXCEPT ![e.k] = Start(s.r, e.start, e.end, e.bs, e.raw, e.omit)]],
                             Chk("start", e.obs.res = "ok"), "ok")
    [] e.op = "pull"  -> PullStep(s, e)
    [] e.op = "info"  -> Res(s, Chk("file-changed", ~e.obs.changed)
                                \union Chk("buffer-count", e.obs.buffers = s.r.n \div DefaultBlock)
                                \union Chk("calibration", e.obs.cal = s.cal), s)
    [] OTHER -> Res(s, {"unknown-op"}, e.op)

INSTANCE TraceBase WITH InitSt <- RInit, Apply <- RApply
=============================================================================
