--------------------------- MODULE SimulationTrace ---------------------------
EXTENDS Simulation, TraceData, TLC
VARIABLES tid, l, st, vd
Chk(name, b) == IF b THEN {} ELSE {name}
Res(s, b, e) == [st |-> s, bad |-> b, exp |-> e]
\* done: rows so far; load: what the target draws since the last step
SmInit(i) == [c |-> i.cfg, pos |-> 0, load |-> 0, e |-> BZero, slack |-> BZero]
\* row of a run: [t, rv, ri] from the input, [av, ai] answer of model and target to the converted sample,
\* asked with [qv, qi, ql], pg: power-good, [ot, ov, oi] row of the output (empty: no output-file)
RowOk(s, c, r) ==
  Chk("asked", r.qv = InV(c, r.rv) /\ r.qi = InI(c, r.ri) /\ r.ql = s.load)
  \union (IF c.kind = "src" THEN Chk("target", Draws(c.target, r.av, r.pg, r.ai)) ELSE {})
  \union (IF r.out = <<>> THEN {} ELSE Chk("time", r.out[1] = r.t) \union Chk("voltage", Stored(r.av, c.out.lov, c.out.lsbv, r.out[2])) \union Chk("current", Stored(r.ai, c.out.loi, c.out.lsbi, r.out[3])))
RECURSIVE Run(_, _, _)
Run(s, rows, k) == IF k > Len(rows) THEN Res(s, {}, <<>>)
   ELSE LET r == rows[k]
            bad == RowOk(s, s.c, r) IN
        IF bad # {} THEN Res(s, bad, <<s.pos + 1, r>>)
        ELSE Run([s EXCEPT !.pos = @ + 1, !.load = IF s.c.kind = "src" THEN r.ai ELSE 0, !.e = BAdd(@, RowEnergy(r.av, r.ai)), !.slack = BAdd(@, RowSlack(r.av, r.ai))], rows, k + 1)
SmApply(s, e) ==
  CASE e.op = "rows" -> Run(s, e.obs.rows, 1)
    [] e.op = "end" ->
         Res(s, Chk("completes", e.obs.ok)
                \union (IF ~e.obs.ok THEN {} ELSE
                        Chk("rows", s.pos = Rows(s.c.n, s.c.blk)) \union (IF e.file THEN Chk("out-rows", e.obs.nout = s.pos) \union Chk("out-kind", e.obs.kind = (IF s.c.kind = "src" THEN "emulator" ELSE "harvester")) ELSE {})
                        \union Chk("energy", BNear(e.obs.e, s.e, s.slack)) \union Chk("repeat", BNear(e.obs.e2, e.obs.e, BAdd(s.slack, BInt(s.pos)))))
                \union Chk("input-unchanged", e.obs.same), <<s.pos, s.e, s.slack, e.obs.err>>)
    [] e.op = "target" -> LET bad == {k \in DOMAIN e.obs.ys : ~Draws(s.c.target, e.obs.ys[k].v, e.obs.ys[k].pg, e.obs.ys[k].i)} IN
         Res(s, Chk("target", bad = {}) \union Chk("no-raise", e.obs.ok)
                \* more voltage never draws less from a resistor or diode
                \union (IF s.c.target.kind \in {"res", "diode"} THEN Chk("monotonic", \A a, b \in DOMAIN e.obs.ys : e.obs.ys[a].pg = e.obs.ys[b].pg /\ e.obs.ys[a].v <= e.obs.ys[b].v => e.obs.ys[a].i <= e.obs.ys[b].i + 1 + e.obs.ys[b].i \div 100) ELSE {}), bad)
    [] OTHER -> Res(s, {"unknown-op"}, e.op)
INSTANCE TraceBase WITH InitSt <- SmInit, Apply <- SmApply
=============================================================================
