---------------------------- MODULE ExportTrace ----------------------------
EXTENDS Export, TraceData, TLC, SequencesExt
G == INSTANCE Gpio
VARIABLES tid, l, st, vd
Chk(name, b) == IF b THEN {} ELSE {name}
Res(s, b, e) == [st |-> s, bad |-> b, exp |-> e]
\* init: [groups, present]; st adds the set of existing targets
EInit(i) == [groups |-> i.groups, pins |-> i.pins, files |-> i.files, present |-> {i.present[k] : k \in DOMAIN i.present}]
Untouched(o) == Chk("recording-changed", ~o.recchanged) \union Chk("other-files-changed", ~o.changed)

One1(s, e, target, w, rows) ==
  LET o == e.obs IN
  Res(IF w THEN [s EXCEPT !.present = @ \union {target}] ELSE s,
      Chk("created", o.created = (IF w THEN {target} ELSE {})) \union Untouched(o)
      \union (IF w /\ o.created # {} THEN Chk("rows", o.rows = rows) \union Chk("header", o.header) ELSE {}), rows)
Norm(e) == [e EXCEPT !.obs = [e.obs EXCEPT !.created = {e.obs.created[k] : k \in DOMAIN e.obs.created}]]

CsvStep(s, e) ==
  LET g == s.groups[e.g] t == g.name \o ".csv" w == Written(g, t, s.present)
      r == One1(s, e, t, w, IF w THEN CsvRows(g, e.raw) ELSE <<>>)
  IN  [r EXCEPT !.bad = @ \union Chk("count", e.obs.ret = Count(g, t, s.present))]
LogStep(s, e) ==
  LET g == s.groups[e.g] t == g.name \o ".log" w == Written(g, t, s.present)
      r == One1(s, e, t, w, IF w THEN LogRows(g, e.stamp) ELSE <<>>)
  IN  [r EXCEPT !.bad = @ \union Chk("count", e.obs.ret = Count(g, t, s.present))]
MetaStep(s, e) ==
  LET w == "yaml" \notin s.present o == e.obs IN
  Res([s EXCEPT !.present = @ \union {"yaml"}],
      Chk("created", o.created = (IF w THEN {"yaml"} ELSE {})) \union Untouched(o)
      \union Chk("returned", o.empty = ~w)
      \union (IF w THEN Chk("structure", {o.nodes[k] : k \in DOMAIN o.nodes} = {s.groups[k].name : k \in DOMAIN s.groups} \union {"data"}) \union Chk("faithful", o.faithful) ELSE {}), w)
\* waveform e.wf: sequence of <<ms, level>>
WfStep(s, e) ==
  LET t == "waveform." \o e.pin \o ".csv" w == t \notin s.present
  IN One1(s, e, t, w, IF w THEN e.wf ELSE <<>>)

\* batches: per file the set of created targets and, for new ones, their rows
Wants(f, what) ==
  LET gs == {k \in DOMAIN f.groups : Entries(f.groups[k]) > 0}
      all == CASE what = "meta" -> {"yaml"} \union {f.groups[k].name \o ".csv" : k \in {j \in gs : f.groups[j].name \in CsvGroups}}
                                          \union {f.groups[k].name \o ".log" : k \in {j \in gs : f.groups[j].name \in LogGroups}}
               [] what = "gpio" -> {"waveform." \o f.pins[k] \o ".csv" : k \in DOMAIN f.pins}
               [] what = "uart" -> IF f.msgs # <<>> THEN {"uart_from_wf.log"} ELSE {}
  IN IF f.usable /\ f.addressed THEN all \ {f.present[k] : k \in DOMAIN f.present} ELSE {}
RowsOf(f, t) == LET c == {k \in DOMAIN f.groups : f.groups[k].name \o ".csv" = t}
                    g == {k \in DOMAIN f.groups : f.groups[k].name \o ".log" = t}
                    p == {k \in DOMAIN f.pins : "waveform." \o f.pins[k] \o ".csv" = t}
                IN IF c # {} THEN CsvRows(f.groups[CHOOSE k \in c : TRUE], FALSE)
                   ELSE IF g # {} THEN LogRows(f.groups[CHOOSE k \in g : TRUE], TRUE)
                   ELSE IF p # {} THEN G!Waveform(f.trace, (CHOOSE k \in p : TRUE) - 1)
                   ELSE IF t = "uart_from_wf.log" THEN f.msgs ELSE <<>>
BatchStep(s, e) ==
  LET o == e.obs
      W(i) == Wants(s.files[i], e.what)
      Bad(i) == LET got == {o.out[i][k].target : k \in DOMAIN o.out[i]}
                IN Chk("targets-of-file", got = W(i))
                   \union UNION {IF o.out[i][k].target \in W(i) /\ o.out[i][k].target # "yaml"
                        THEN Chk("rows", o.out[i][k].rows = RowsOf(s.files[i], o.out[i][k].target)) ELSE {} : k \in DOMAIN o.out[i]}
  IN Res([s EXCEPT !.files = [i \in DOMAIN s.files |-> [s.files[i] EXCEPT !.present = @ \o SetToSeq(W(i))]]],
         UNION {Bad(i) : i \in DOMAIN s.files} \union Untouched(o) \union Chk("stray-files", o.stray = 0) \union Chk("aborted", o.exit = 0),
         [i \in DOMAIN s.files |-> W(i)])
EApply(s, e0) ==
  CASE e0.op = "csv" -> CsvStep(s, Norm(e0))
    [] e0.op = "log" -> LogStep(s, Norm(e0))
    [] e0.op = "meta" -> MetaStep(s, Norm(e0))
    [] e0.op = "wf" -> WfStep(s, Norm(e0))
    [] e0.op = "batch" -> BatchStep(s, e0)
    [] OTHER -> Res(s, {"unknown-op"}, e0.op)
INSTANCE TraceBase WITH InitSt <- EInit, Apply <- EApply
=============================================================================
