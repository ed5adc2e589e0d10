--------------------------- MODULE HarvesterTrace ---------------------------
EXTENDS Harvester, TraceData, TLC
VARIABLES tid, l, st, vd
Chk(name, b) == IF b THEN {} ELSE {name}
Res(s, b, e) == [st |-> s, bad |-> b, exp |-> e]
\* several models may run side by side: st[m] = [c, s]
HaInit(i) == [m \in DOMAIN i.models |-> [c |-> i.models[m], s |-> HInit(i.models[m])]]
\* run through samples xs (pairs) comparing with observed outputs ys and set-points zs (<<>>: not observed)
RECURSIVE Run(_, _, _, _, _, _)
Run(c, s, xs, ys, zs, k) ==
  IF k > Len(xs) THEN [s |-> s, bad |-> {}, exp |-> <<>>]
  ELSE LET n == HStep(c, s, xs[k][1], xs[k][2])
           o == HOut(c, n, xs[k][1], xs[k][2])
       IN  IF o # ys[k] THEN [s |-> s, bad |-> {"output"}, exp |-> <<k, o>>]
           ELSE IF zs # <<>> /\ zs[k] # n.set /\ ~Passes(c) /\ c.alg # "opt" THEN [s |-> s, bad |-> {"set-point"}, exp |-> <<k, n.set>>]
           ELSE Run(c, n, xs, ys, zs, k + 1)
HaApply(s, e) ==
  CASE e.op = "samples" ->
         LET r == Run(s[e.m].c, s[e.m].s, e.x, e.obs.y, e.obs.z, 1) IN
         Res([s EXCEPT ![e.m].s = r.s], r.bad \union Chk("one-output-per-sample", Len(e.x) = Len(e.obs.y)), r.exp)
    [] OTHER -> Res(s, {"unknown-op"}, e.op)
INSTANCE TraceBase WITH InitSt <- HaInit, Apply <- HaApply
=============================================================================
