-------------------------- MODULE ConverterTrace --------------------------
EXTENDS Converter, TraceData, TLC
VARIABLES tid, l, st, vd
H == INSTANCE Harvester
Res(s, b, e) == [st |-> s, bad |-> b, exp |-> e]
NoHrv == [alg |-> "none"]
HasHrv(c) == c.h.alg # "none"
CnInit(i) == [c |-> i.cfg, S |-> {[s |-> CInit(i.cfg), h |-> IF HasHrv(i.cfg) THEN H!HInit(i.cfg.h) ELSE 0]}, win |-> BZero, wout |-> BZero]
\* what the harvester passes on; with feedback its set-point follows the request (known within 1 uV)
Hrv(c, p, x) ==
  IF ~HasHrv(c) THEN {[h |-> 0, y |-> <<x.v, x.i>>]}
  ELSE LET go(h) == LET n == H!HStep(c.h, h, x.v, x.i) IN [h |-> n, y |-> H!HOut(c.h, n, x.v, x.i)] IN
       IF c.fb /\ x.first = FALSE THEN {go([p.h EXCEPT !.set = @ + k]) : k \in -1 .. 1} ELSE {go(p.h)}
\* reading of the fake adc for a load current
RawOf(c, i) == MaxI(0, (2 * (i - c.adco) + c.adcg) \div (2 * c.adcg))
DacSeen(c, n, o) ==
  IF o.dac >= 0 THEN DacOk(c, n, o.dac)
  ELSE IF o.ret < 0 THEN TRUE
  ELSE \E k \in -1 .. 1 : (o.ret - c.daco + k) % c.dacg = 0 /\ DacOk(c, n, (o.ret - c.daco + k) \div c.dacg)
\* one sample x = [set, v, i, raw, il], observed o
One(c, s0, x, y, o, vcap) ==
  LET a == IF x.set >= 0 THEN [s0 EXCEPT !.v = x.set, !.ex = TRUE] ELSE s0
      b == VAfterInp(c, a, y[1])
      raw == IF x.il < 0 THEN x.raw ELSE RawOf(c, x.il)
      d == AfterOut(c, b, raw)
      e == AfterCap(c, d, o.pin, o.pout, vcap)
      cand == States(c, e)
      post == {n \in cand : AbsI(n.v - o.vmid) <= (IF n.v # e.v THEN 1 ELSE 0) /\ n.pg = o.pg /\ DacSeen(c, n, o) /\ SkipOk(c, n, o.skip)}
      bad == (IF InpOk(c, a, y[1], y[2], o.pin) THEN {} ELSE {"input-power"})
             \union (IF ReqOk(c, a, y[2], o.req) THEN {} ELSE {"request"})
             \union (IF OutOk(c, b, raw, o.pout) THEN {} ELSE {"output-power"})
             \union (IF CapOk(c, d, o.pin, o.pout, vcap) THEN {} ELSE {"storage"})
  IN  IF bad # {} THEN [s |-> {}, bad |-> bad, exp |-> a]
      ELSE IF post = {} THEN [s |-> {}, bad |-> {"states"}, exp |-> [from |-> e, to |-> cand]]
      ELSE [s |-> {[n EXCEPT !.v = o.vmid] : n \in post}, bad |-> {}, exp |-> <<>>]
VCaps(c, o) == IF o.vcap >= 0 THEN {o.vcap} ELSE {o.vmid, o.vmid + c.dven}
\* all possible pre-states; a sample fails if none of them explains it
Step(c, S, x, o) ==
  LET R == UNION {UNION {{[p |-> One(c, p.s, x, g.y, o, vc), h |-> g.h] : vc \in VCaps(c, o)} : g \in Hrv(c, p, x)} : p \in S}
      fb(h) == IF HasHrv(c) /\ c.fb THEN [h EXCEPT !.set = o.req] ELSE h
      N == UNION {{[s |-> n, h |-> fb(r.h)] : n \in r.p.s} : r \in R}
  IN  IF N # {} THEN [s |-> N, bad |-> {}, exp |-> <<>>] ELSE (CHOOSE r \in R : TRUE).p
RECURSIVE Run(_, _, _, _, _)
Run(c, S, xs, os, k) ==
  IF k > Len(xs) THEN [s |-> S, bad |-> {}, exp |-> <<>>]
  ELSE LET r == Step(c, S, xs[k], os[k]) IN
       IF r.bad # {} THEN [r EXCEPT !.exp = <<k, @>>] ELSE Run(c, r.s, xs, os, k + 1)
RECURSIVE Sum(_, _, _)
Sum(os, k, acc) == IF k > Len(os) THEN acc ELSE Sum(os, k + 1, [i |-> BAdd(acc.i, os[k].pin), o |-> BAdd(acc.o, os[k].pout)])
CnApply(s, e) ==
  CASE e.op = "run" ->
         LET r == Run(s.c, s.S, e.x, e.obs.y, 1) IN
         Res([s EXCEPT !.S = r.s], r.bad \union (IF Len(e.x) = Len(e.obs.y) THEN {} ELSE {"one-output-per-sample"}), r.exp)
    [] e.op = "src" ->
         LET r == Run(s.c, s.S, e.x, e.obs.y, 1)
             w == Sum(e.obs.y, 1, [i |-> s.win, o |-> s.wout])
             tol == BInt(256 * e.count)       \* float summation
         IN  Res([s EXCEPT !.S = r.s, !.win = w.i, !.wout = w.o],
                 r.bad \union (IF Len(e.x) = Len(e.obs.y) THEN {} ELSE {"one-output-per-sample"})
                 \union (IF BNear(w.i, e.obs.win, tol) THEN {} ELSE {"energy-in"}) \union (IF BNear(w.o, e.obs.wout, tol) THEN {} ELSE {"energy-out"}), r.exp)
    [] OTHER -> Res(s, {"unknown-op"}, e.op)
INSTANCE TraceBase WITH InitSt <- CnInit, Apply <- CnApply
=============================================================================
