----------------------------- MODULE PanelTrace -----------------------------
EXTENDS Panel, TraceData, TLC
VARIABLES tid, l, st, vd
Chk(name, b) == IF b THEN {} ELSE {name}
Res(s, b, e) == [st |-> s, bad |-> b, exp |-> e]
QInit(i) == [src |-> i.src, step |-> i.step, files |-> {}]
Near(a, b, t) == Abs(a - b) <= t
Exp(s, o, r, t0) == [rows |-> r, t |-> IF r = 0 THEN <<0, 0, 0>> ELSE <<t0, 10, r>>]
\* values at the instants of the source samples (o.at: [k, v, i]); v in uV, i in 10 nA
AtSource(s, e, x) ==
  LET c == s.src[x.k + 1] IN
  CASE e.what = "isc_voc"  -> Chk("open-circuit-voltage", Near(x.v, Min2(c.voc, e.vmax), 2)) \union Chk("short-circuit-current", Near(x.i, c.isc, 1))
    [] e.what = "ivsample" -> LET G == IF e.tracker = "opt" THEN Optimal(c.cur) ELSE BelowRatio(c.cur, s.step, Min2(c.voc, e.vmax), e.ratio)
                              IN Chk("operating-point", \E g \in G : Near(x.v, g * s.step, 2) /\ Near(x.i, c.cur[g + 1], 1))
    [] OTHER -> Chk("no-curve", FALSE)
\* whole curves (o.curves: [k, v progression, i values])
CurveAt(s, x) == LET c == s.src[x.k + 1].cur IN
   Chk("curve-voltage", x.v = <<0, s.step, Len(c)>>)
   \union Chk("curve-current", Len(x.i) = Len(c) /\ \A j \in DOMAIN c : j > Len(x.i) \/ Near(x.i[j], c[j], 1))
ConvStep(s, e) ==
  LET o == e.obs n == Len(s.src) rows == RowsOf(n, e.d, e.sps) IN
  IF e.file \in s.files
  THEN Res(s, Chk("existing-file-touched", ~o.changed /\ ~o.created), "untouched")
  ELSE Res([s EXCEPT !.files = @ \union {e.file}],
           Chk("files-changed", ~o.changed) \union Chk("created", o.created)
           \union Chk("rows", o.rows = rows)
           \union Chk("time", o.t = (IF rows = 0 THEN <<0, 0, 0>> ELSE <<e.t0, 10, rows>>))
           \union Chk("kind", o.dtype = e.what /\ o.mode = "harvester" /\ o.win = (IF e.what = "ivcurve" THEN Len(s.src[1].cur) ELSE 0))
           \union Chk("host", o.host = "IVonne")
           \union Chk("instants", e.what = "ivcurve" \/ {x.k : x \in {o.at[i] : i \in DOMAIN o.at}} = {k \in 0 .. n - 1 : k * Up(e.sps) < o.rows})
           \union UNION {AtSource(s, e, o.at[i]) : i \in DOMAIN o.at}
           \union UNION {CurveAt(s, o.curves[i]) : i \in DOMAIN o.curves}
           \union Chk("ramp", e.what # "ivcurve" \/ o.ramps),
           [rows |-> rows, cover |-> Cover(n, e.d)])
TrackStep(s, e) ==
  LET o == e.obs
      G(k) == LET c == s.src[k] IN
              IF e.tracker = "opt" THEN Optimal(c.cur)
              ELSE IF e.voc THEN BelowRatio(c.cur, s.step, c.voc, e.ratio)
              ELSE UNION {BelowRatio(c.cur, s.step, g * s.step, e.ratio) : g \in OcIndex(c.cur)}
  IN Res(s, Chk("one-point-per-sample", Len(o.at) = Len(s.src))
            \union UNION {Chk("operating-point", \E g \in G(k) : Near(o.at[k].v, g * s.step, 2) /\ Near(o.at[k].i, s.src[k].cur[g + 1], 1))
                          : k \in DOMAIN o.at \intersect DOMAIN s.src},
         [k \in DOMAIN s.src |-> G(k)])
QApply(s, e) ==
  CASE e.op = "convert" -> ConvStep(s, e)
    [] e.op = "track" -> TrackStep(s, e)
    [] OTHER -> Res(s, {"unknown-op"}, e.op)
INSTANCE TraceBase WITH InitSt <- QInit, Apply <- QApply
=============================================================================
