-------------------------- MODULE ExperimentTrace --------------------------
EXTENDS Experiment, TraceData, TLC
VARIABLES tid, l, st, vd
Chk(name, b) == IF b THEN {} ELSE {name}
Res(s, b, e) == [st |-> s, bad |-> b, exp |-> e]
EInit(i) == [w |-> i.w, cs |-> <<>>, ok |-> FALSE]
Open(w, cs) == \E k \in DOMAIN cs : Unspecified(w, cs[k])
EApply(s, e) ==
  CASE e.op = "config" ->
         LET want == ConfigOk(s.w, e.c) IN
         Res(s, Chk("config-verdict", Unspecified(s.w, e.c) \/ e.obs.ok = want), want)
    [] e.op = "experiment" ->
         LET want == Admitted(s.w, e.cs, e.neg) IN
         Res([s EXCEPT !.cs = e.cs, !.ok = e.obs.ok], Chk("experiment-verdict", Open(s.w, e.cs) \/ e.obs.ok = want), want)
    [] e.op = "tasks" ->
         LET want == Tasks(s.w, s.cs)
             g == e.obs.sets
             n == Len(want)
             C(k) == e.cfg[want[k].cfg]
         IN  Res(s,
              Chk("one-set-per-target", Len(g) = n)
              \union Chk("experiment-name", e.obs.name = e.name /\ e.obs.email = e.email /\ e.obs.owner = e.owner)
              \union (IF Len(g) # n THEN {} ELSE
                 Chk("observer", \A k \in 1 .. n : g[k].observer = want[k].obs)
                 \union Chk("shared-directory", \A k \in 1 .. n : g[k].root = g[1].root)
                 \union Chk("directory", e.root = "" \/ \A k \in 1 .. n : g[k].root = e.root)
                 \union Chk("order", \A k \in 1 .. n : g[k].order = want[k].order)
                 \union Chk("prepared-before-start", \A k \in 1 .. n :
                        IF e.start >= 0 THEN g[k].prep = e.start - e.prep /\ g[k].emu.start = e.start
                        ELSE g[k].emu.start = -1 /\ g[k].prep + e.prep >= e.now)
                 \union Chk("port", \A k \in 1 .. n : g[k].emu.pwr = want[k].port /\ g[k].emu.io = want[k].port
                        /\ \A m \in DOMAIN g[k].prog : g[k].prog[m].port = want[k].port)
                 \union Chk("identity", \A k \in 1 .. n : \A m \in DOMAIN g[k].mod : g[k].mod[m].cid = want[k].id)
                 \union Chk("firmware", \A k \in 1 .. n : [m \in DOMAIN g[k].mod |-> <<g[k].mod[m].data, g[k].mod[m].dtype>>] = C(k).fw)
                 \union Chk("programmer", \A k \in 1 .. n : [m \in DOMAIN g[k].prog |-> g[k].prog[m].set] = C(k).prog)
                 \union Chk("program-what-was-modified", \A k \in 1 .. n : Len(g[k].mod) = Len(g[k].prog)
                        /\ \A m \in DOMAIN g[k].mod : g[k].mod[m].file = g[k].prog[m].file)
                 \union Chk("options", \A k \in 1 .. n : g[k].emu.opt = C(k).opt)
                 \union Chk("experiment-options", \A k \in 1 .. n : g[k].emu.glob = e.glob)
                 \union Chk("inside-directory", \A k \in 1 .. n : \A x \in Range(g[k].files) : x.dir = g[k].root)
                 \union Chk("files-collide",
                      LET S == UNION {{<<k, x>> : x \in DOMAIN g[k].files} : k \in 1 .. n} IN
                      \A a, b \in S : a # b => g[a[1]].files[a[2]] # g[b[1]].files[b[2]])
                 \union Chk("output-paths", {<<o.obs, o.path>> : o \in Range(e.obs.outputs)} = {<<want[k].obs, g[k].emu.out>> : k \in 1 .. n}
                        /\ Len(e.obs.outputs) = n)),
              want)
    [] OTHER -> Res(s, {"unknown-op"}, e.op)
INSTANCE TraceBase WITH InitSt <- EInit, Apply <- EApply
=============================================================================
