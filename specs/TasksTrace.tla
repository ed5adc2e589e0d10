----------------------------- MODULE TasksTrace -----------------------------
EXTENDS Tasks, TraceData, TLC
VARIABLES tid, l, st, vd
Chk(name, b) == IF b THEN {} ELSE {name}
Res(s, b, e) == [st |-> s, bad |-> b, exp |-> e]
\* st: known items by key
KInit(i) == [x \in {} |-> 0]
KApply(s, e) ==
  CASE e.op = "item" -> Res((e.key :> e.it) @@ s, {}, 0)
    [] e.op = "prepare" ->      \* from item e.src by some route, result known as e.dst
         LET want == Prepared(s[e.src], e.observer) IN
         Res(IF want.ok THEN (e.dst :> Handed(s[e.src], e.observer)) @@ s ELSE s,
             Chk("prepare-verdict", e.obs.ok = want.ok)
             \union (IF e.obs.ok /\ want.ok THEN Chk("prepared-type", e.obs.type = want.type) \union Chk("prepared-content", e.obs.h = want.h) ELSE {})
             \union Chk("input-altered", e.obs.same), want)
    [] e.op = "extract" ->
         LET want == Extracted(s[e.src], e.nosets) IN
         Res(s, Chk("extract-verdict", e.obs.ok = want.ok) \union (IF e.obs.ok /\ want.ok THEN Chk("extracted", e.obs.items = want.items) ELSE {})
                \union Chk("wrapper-altered", e.obs.same), want)
    [] e.op = "sets" ->         \* looking up an observer's set
         LET want == Prepared(s[e.src], e.observer) IN
         Res(s, Chk("set-lookup", e.obs.ok = want.ok) \union (IF e.obs.ok /\ want.ok THEN Chk("set", e.obs.h = want.h) ELSE {}), want)
    [] OTHER -> Res(s, {"unknown-op"}, e.op)
INSTANCE TraceBase WITH InitSt <- KInit, Apply <- KApply
=============================================================================
