------------------------------ MODULE PlotTrace ------------------------------
EXTENDS Plot, TraceData, TLC
VARIABLES tid, l, st, vd
Chk(name, b) == IF b THEN {} ELSE {name}
Res(s, b, e) == [st |-> s, bad |-> b, exp |-> e]
PInit(i) == [recs |-> i.recs, known |-> <<>>]

Const(name, b, o) == IF o.n <= 60 THEN {} ELSE Chk(name, o.lo >= b - 1 /\ o.hi <= b + 1)
DataStep(s, e) ==
  LET r == s.recs[e.rec].r q == e.q o == e.obs IN
  IF ~Shown(r, q) THEN Res(s, Chk("nothing-to-show", o.none), "none")
  ELSE IF o.none THEN Res(s, {"not-shown"}, "data")
  ELSE LET fs == {f \in Factors(r, q, e.me) : o.t = TimeF(r, q, f, e.rel)} IN
       IF fs = {} THEN Res(s, {"time"}, {TimeF(r, q, f, e.rel) : f \in Factors(r, q, e.me)})
       ELSE LET f == CHOOSE x \in fs : TRUE IN
            Res(s, Chk("row-count", o.nv = RowsF(r, q, f) /\ o.nc = RowsF(r, q, f))
                   \union (IF f = 1 THEN Chk("voltage", o.v = ValF(r, q, r.vb, r.vs)) \union Chk("current", o.c = ValF(r, q, r.cb, r.cs))
                           ELSE (IF r.vs = 0 THEN Const("constant-voltage", r.vb, o.vr) ELSE {})
                                \union (IF r.cs = 0 THEN Const("constant-current", r.cb, o.cr) ELSE {}))
                   \union Chk("limits", o.s = SecS(q) /\ o.e = SecE(r, q))
                   \union Chk("name", o.name = s.recs[e.rec].host)
                   \union Chk("files-changed", ~o.changed),
                [f |-> f, v |-> ValF(r, q, r.vb, r.vs), s |-> SecS(q), e |-> SecE(r, q)])
\* a figure of several recordings, drawn with every sample
FigStep(s, e) ==
  LET o == e.obs ax == Axes(e.pwr)
      shown == SelectSeq(e.recs, LAMBDA k : Shown(s.recs[k].r, e.q))
      T(k) == TimeF(s.recs[k].r, e.q, 1, TRUE)
  IN Res(s, IF Len(o.axes) # Len(ax) THEN {"axes"}
            ELSE UNION {IF Len(o.axes[a]) # Len(shown) THEN {"lines-of-axis"}
                        ELSE UNION {LET ln == o.axes[a][j] k == shown[j] IN
                                    Chk("line-name", ln.name = s.recs[k].host) \union Chk("line-time", ln.t = T(k))
                                    \union Chk("line-" \o ax[a], ln.y = Line(s.recs[k].r, e.q, ax[a])) : j \in DOMAIN shown}
                        : a \in DOMAIN ax},
         [n |-> Len(shown)])
Labels(s, ks, pwr) == [a \in DOMAIN Axes(pwr) |-> [j \in DOMAIN ks |-> s.recs[ks[j]].host]]
StoreStep(s, e) ==
  LET r == s.recs[1].r q == e.q o == e.obs k == PlotKey(r, q)
      old == {i \in DOMAIN s.known : s.known[i] = k}
      same == Chk("files-changed", ~o.changed)
  IN IF ~Shown(r, q) THEN Res(s, same \union Chk("nothing-to-store", o.created = 0), "none")
     ELSE IF old # {} THEN Res(s, same \union Chk("existing-plot", o.created = 0), "existing")
     ELSE Res([s EXCEPT !.known = Append(@, k)],
              same \union Chk("one-new-plot", o.created = 1) \union Chk("drawn", o.lines = <<Labels(s, <<1>>, e.pwr)>>),
              Labels(s, <<1>>, e.pwr))
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o Sorted(S \ {m})
Sum(f) == LET RECURSIVE go(_) go(i) == IF i = 0 THEN 0 ELSE f[i] + go(i - 1) IN go(Len(f))
SeqSet(x) == {x[i] : i \in DOMAIN x}
\* a batch may follow earlier ones: what was stored before stays, so only ranges without plot are drawn
\* (the joint plot is named by the range of one of its recordings)
BatchStep(s, e) ==
  LET o == e.obs d == Drawn(s.recs, e.q) joint == Joint(s.recs, e.multi)
      K(i) == PlotKey(s.recs[i].r, e.q)
      new == {i \in d : <<i, K(i)>> \notin SeqSet(s.known)}
      old == {i \in d : <<0, K(i)>> \in SeqSet(s.known)}
      fresh == {i \in d : o.jkey = K(i)} \ old
      st2 == [s EXCEPT !.known = IF joint THEN (IF o.joint = 1 THEN Append(@, <<0, o.jkey>>) ELSE @)
                                 ELSE LET ns == Sorted(new) IN @ \o [j \in DOMAIN ns |-> <<ns[j], K(ns[j])>>]]
  IN
  Res(st2, Chk("files-changed", ~o.changed) \union Chk("aborted", o.exit = 0)
         \union (IF joint
                 THEN Chk("joint-plot", Sum(o.out) = 0 /\ (IF o.joint = 1 THEN fresh # {} ELSE o.joint = 0 /\ (d = {} \/ old # {})))
                      \union Chk("joint-lines", o.joint = 0 \/ (/\ Len(o.lines) = 1 /\ Len(o.lines[1]) = Len(Axes(e.pwr))
                                                         /\ \A a \in DOMAIN o.lines[1] : Len(o.lines[1][a]) = Cardinality(d)
                                                                /\ SeqSet(o.lines[1][a]) = {s.recs[i].host : i \in d}))
                 ELSE Chk("joint-plot", o.joint = 0)
                      \union UNION {Chk("plot-of-recording", o.out[i] = (IF i \in new THEN 1 ELSE 0)) : i \in DOMAIN o.out}
                      \union Chk("drawn", Len(o.lines) = Cardinality(new)
                                 /\ {o.lines[i] : i \in DOMAIN o.lines} = {Labels(s, <<i>>, e.pwr) : i \in new})),
      [drawn |-> Sorted(d), new |-> Sorted(new), joint |-> joint])
PApply(s, e) ==
  CASE e.op = "data" -> DataStep(s, e)
    [] e.op = "figure" -> FigStep(s, e)
    [] e.op = "store" -> StoreStep(s, e)
    [] e.op = "batch" -> BatchStep(s, e)
    [] OTHER -> Res(s, {"unknown-op"}, e.op)
INSTANCE TraceBase WITH InitSt <- PInit, Apply <- PApply
=============================================================================
