--------------------------- MODULE ValidityTrace ---------------------------
EXTENDS Validity, TraceData, TLC
VARIABLES tid, l, st, vd
Chk(name, b) == IF b THEN {} ELSE {name}
Res(s, b, e) == [st |-> s, bad |-> b, exp |-> e]
VInit(i) == i
VApply(s, e) ==
  CASE e.op = "open" ->    \* opening for reading: outcome "valid" / "invalid" / "raised"
         Res(s, Chk("verdict", IF Broken(e.f) THEN e.obs.res \in {"invalid", "raised"}
                               ELSE e.obs.res = (IF Valid(e.f) THEN "valid" ELSE "invalid"))
                \union Chk("file-changed", ~e.obs.changed), Valid(e.f))
    [] e.op = "judge" ->   \* is_valid() on an open handle whose structure was altered to f
         Res(s, Chk("verdict", e.obs.res = (IF Valid(e.f) THEN "valid" ELSE "invalid")), Valid(e.f))
    [] e.op = "steps" ->
         Res(s, Chk("equidistant", e.obs.ok = Equidistant(e.n, e.jumps)), Equidistant(e.n, e.jumps))
    [] e.op = "errors" ->
         Res(s, Chk("error-count", e.obs.n = (IF e.group THEN ErrCount(e.levels, e.min) ELSE 0)), "count")
    [] e.op = "validate" ->
         Res(s, Chk("exit-code", e.obs.failed = Fails(e.files, e.recurse))
                \union Chk("file-changed", ~e.obs.changed), Fails(e.files, e.recurse))
    [] OTHER -> Res(s, {"unknown-op"}, e.op)
INSTANCE TraceBase WITH InitSt <- VInit, Apply <- VApply
=============================================================================
