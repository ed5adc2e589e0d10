------------------------------ MODULE Readout ------------------------------
(* Block-wise reading of one recording by independent iterations.            *)
(* A recording r: [n, vb, cb, tb, dt] holds rows 0..n-1 with raw values      *)
(*   voltage vb + i, current cb + 3 i, time tb + i dt                        *)
(* and a calibration [gv, ov, gc, oc, gt, ot] (gain, offset in 1/1024 SI).   *)
EXTENDS Integers, Sequences

Min2(a, b) == IF a < b THEN a ELSE b
DefaultBlock == 10000

Blk(bs)      == IF bs < 0 THEN DefaultBlock ELSE bs
\* an iteration: current block index, end block (exclusive), block size, flags
Start(r, start, end, bs, raw, omit) ==
  [i |-> start,
   e |-> IF end = -999 THEN r.n \div Blk(bs) ELSE Min2(end, r.n \div Blk(bs)),
   b |-> Blk(bs), raw |-> raw, omit |-> omit]

Idle == [i |-> 0, e |-> -1, b |-> 1, raw |-> TRUE, omit |-> TRUE]

HasNext(it) == it.i < it.e
First(it)   == it.i * it.b
Advance(it) == [it EXCEPT !.i = it.i + 1]

\* a column block is an arithmetic progression: first value, step, count
Prog(f, s, n)  == <<f, IF n > 1 THEN s ELSE 0, n>>
RawCols(r, it) == [v |-> Prog(r.vb + First(it), 1, it.b),
                   c |-> Prog(r.cb + 3 * First(it), 3, it.b),
                   t |-> Prog(r.tb + r.dt * First(it), r.dt, it.b)]
Si(p, g, o)    == <<p[1] * g + o, p[2] * g, p[3]>>
Cols(r, cal, it) ==
  LET q == RawCols(r, it)
      w == IF it.raw THEN q
           ELSE [v |-> Si(q.v, cal.gv, cal.ov), c |-> Si(q.c, cal.gc, cal.oc), t |-> Si(q.t, cal.gt, cal.ot)]
  IN  IF it.omit THEN [w EXCEPT !.t = <<>>] ELSE w
=============================================================================
