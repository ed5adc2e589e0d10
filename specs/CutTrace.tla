------------------------------ MODULE CutTrace ------------------------------
EXTENDS Cut, TraceData, TLC
VARIABLES tid, l, st, vd
Chk(name, b) == IF b THEN {} ELSE {name}
Res(s, b, e) == [st |-> s, bad |-> b, exp |-> e]
\* st: files known so far (result number -> identity); digests per (dataset, range, factor) for determinism
CInit(i) == [r |-> i.r, known |-> <<>>, dig |-> <<>>, hist |-> i]

Const(b, o, n) == IF o.n <= 60 THEN {} ELSE
   Chk("constant-not-preserved", o.lo >= b - 1 /\ o.hi <= b + 1)

Outcome(s, r, q, o) ==
  LET t == TimeCol(r, q) rows == Rows(r, q) IN
  Chk("time", o.t = t)
  \union Chk("row-count", o.n = rows)
  \union (IF Factor(q) = 1 THEN Chk("voltage", o.v = ValCol(r, q, r.vb, r.vs)) \union Chk("current", o.c = ValCol(r, q, r.cb, r.cs))
          ELSE (IF r.vs = 0 THEN Const(r.vb, o.vr, rows) ELSE {}) \union (IF r.cs = 0 THEN Const(r.cb, o.cr, rows) ELSE {}))
  \union Chk("identity-of-data", o.attrs = s.hist.attrs)
  \union Chk("factor-noted", o.factor = Factor(q))

FindKey(s, k) == {i \in DOMAIN s.known : s.known[i] = k}
CutStep(s, e) ==
  LET r == s.r q == e.q o == e.obs k == Key(r, q) IN
  IF Refused(r, q) THEN Res(s, Chk("should-be-refused", o.res = "refused") \union Chk("files-changed", ~o.changed /\ ~o.created), "refused")
  ELSE IF o.res # "ok" THEN Res(s, {"refused-without-reason"}, "ok")
  ELSE IF k = SourceKey THEN Res(s, Chk("source-expected", o.path = 0 /\ ~o.created) \union Chk("files-changed", ~o.changed), "source")
  ELSE IF FindKey(s, k) # {} THEN
         Res(s, Chk("existing-result", {o.path} = FindKey(s, k) /\ ~o.created) \union Chk("files-changed", ~o.changed), "existing")
  ELSE Res([s EXCEPT !.known = Append(@, k)],
           Chk("new-file-expected", o.created /\ o.path = Len(s.known) + 1) \union Chk("files-changed", ~o.changed)
           \union (IF o.created THEN Outcome(s, r, q, o) ELSE {}), [t |-> TimeCol(r, q), n |-> Rows(r, q)])

\* decimation of plain arrays: e: [len, start, end, n, m, time], obs: progression or digest
ArrRange(e) == LET last == IF e.end = None THEN e.len ELSE Min2(e.len, e.end) IN last - Min2(last, e.start)
ArrStep(s, e) ==
  LET rg == ArrRange(e) k == rg \div e.n
      first == (IF e.end = None THEN e.len ELSE Min2(e.len, e.end)) - rg
      key == <<e.start, e.end, e.n, e.len>>
      old == {i \in DOMAIN s.dig : s.dig[i][1] = key}
      o == e.obs
  IN IF rg = 0 THEN Res(s, Chk("empty", o.rows = 0), "empty")
     ELSE IF e.time \/ e.n = 1 THEN Res(s, Chk("rows", o.rows = k) \union Chk("values", o.v = Prog(first * 3, 3 * e.n, k)), Prog(first * 3, 3 * e.n, k))
     ELSE Res(IF old = {} THEN [s EXCEPT !.dig = Append(@, <<key, o.digest>>)] ELSE s,
              Chk("rows", o.rows = k)
              \union Chk("block-size-matters", \A i \in old : s.dig[i][2] = o.digest), "deterministic")

\* batch: e.files sequence of recordings, rate/num/den (rate 0: by factor; num 0: default list)
Factors(e, r) == IF e.num > 0 THEN {e.num \div e.den}
                 ELSE IF e.rate > 0 THEN {r.sps \div e.rate}
                 ELSE {DefaultList[i] : i \in DOMAIN DefaultList}
Wanted(e, r) == {n \in Factors(e, r) : LET q == [s |-> e.s, e |-> e.e, num |-> n, den |-> 1] IN ~Refused(r, q) /\ Key(r, q) # SourceKey}
BatchStep(s, e) ==
  LET o == e.obs
      Bad(i) == LET r == e.files[i].r w == IF e.files[i].usable /\ e.files[i].addressed THEN Wanted(e, r) ELSE {}
                    got == {o.out[i][j].factor : j \in DOMAIN o.out[i]}
                IN Chk("results-of-file", got = w /\ Len(o.out[i]) = Cardinality(w))
                   \union UNION {LET q == [s |-> e.s, e |-> e.e, num |-> o.out[i][j].factor, den |-> 1]
                                 IN IF o.out[i][j].factor \notin w THEN {}
                                    ELSE Chk("time", o.out[i][j].t = TimeCol(r, q)) \union Chk("row-count", o.out[i][j].n = Rows(r, q))
                                 : j \in DOMAIN o.out[i]}
  IN Res(s, UNION {Bad(i) : i \in DOMAIN e.files} \union Chk("files-changed", ~o.changed) \union Chk("aborted", o.exit = 0)
            \union Chk("stray-files", o.stray = 0),
         [i \in DOMAIN e.files |-> Wanted(e, e.files[i].r)])

\* extraction of samples: one result per usable file (default factor 1000), its table beside it
Sought(e, r) == [s |-> e.s, e |-> e.e, num |-> e.num, den |-> e.den]
ExtractStep(s, e) ==
  LET o == e.obs
      Does(i) == e.files[i].usable /\ e.files[i].addressed /\ ~Refused(e.files[i].r, Sought(e, e.files[i].r))
      News(i) == Does(i) /\ Key(e.files[i].r, Sought(e, e.files[i].r)) # SourceKey
      Tbl(i) == LET r == e.files[i].r q == Sought(e, r) x == o.tables[i][1] rows == IF News(i) THEN Rows(r, q) ELSE r.n
                    tc == IF News(i) THEN TimeCol(r, q) ELSE Prog(r.tb, r.dt, r.n)
                IN Chk("table-time", x.t = tc) \union Chk("table-form", x.head) \union Chk("table-current", x.c = x.rc) \union Chk("table-voltage", x.v = x.rv)
      HasRows(i) == Does(i) /\ (IF News(i) THEN Rows(e.files[i].r, Sought(e, e.files[i].r)) > 0 ELSE TRUE)
      Bad(i) == Chk("results-of-file", IF News(i) THEN Len(o.out[i]) = 1 /\ o.out[i][1].t = TimeCol(e.files[i].r, Sought(e, e.files[i].r)) ELSE o.out[i] = <<>>)
                \union Chk("one-table", Len(o.tables[i]) = IF HasRows(i) THEN 1 ELSE 0)
                \union (IF HasRows(i) /\ Len(o.tables[i]) = 1 THEN Tbl(i) ELSE {})
  IN Res(s, UNION {Bad(i) : i \in DOMAIN e.files} \union Chk("files-changed", ~o.changed) \union Chk("aborted", o.exit = 0)
            \union Chk("stray-files", o.stray = 0), [i \in DOMAIN e.files |-> Does(i)])

CApply(s, e) ==
  CASE e.op = "cut" -> CutStep(s, e)
    [] e.op = "array" -> ArrStep(s, e)
    [] e.op = "batch" -> BatchStep(s, e)
    [] e.op = "extract" -> ExtractStep(s, e)
    [] OTHER -> Res(s, {"unknown-op"}, e.op)
INSTANCE TraceBase WITH InitSt <- CInit, Apply <- CApply
=============================================================================
