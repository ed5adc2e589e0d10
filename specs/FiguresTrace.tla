----------------------------- MODULE FiguresTrace -----------------------------
EXTENDS Figures, TraceData, TLC
VARIABLES tid, l, st, vd
Chk(name, b) == IF b THEN {} ELSE {name}
Res(s, b, e) == [st |-> s, bad |-> b, exp |-> e]
\* file: columns (raw), calibrations [gv, ov, gi, oi], dt, gpio-column; derived once
FgInit(i) == LET c == i.cfg IN
  [c |-> c, fv |-> BFold(c.vs, c.gv, c.ov, 1, Len(c.vs)), fi |-> BFold(c.cs, c.gi, c.oi, 1, Len(c.cs)), fg |-> BFold(c.gpio, 1, 0, 1, Len(c.gpio)),
   e |-> Prod(Scaled(c.vs, c.gv, c.ov), Scaled(c.cs, c.gi, c.oi), 1, Len(c.vs))]
\* sum of products is compared in fW * samples (slack: floats in the code)
EnergyOk(s, e) == BNear(e, s.e, BInt(100 + s.c.n))
Column(s, d) == CASE d = "voltage" -> s.fv [] d = "current" -> s.fi [] OTHER -> s.fg
StatsOk(f, o) == IF f.n = 0 THEN Chk("empty", ~o.has)
                 ELSE Chk("has", o.has) \union (IF ~o.has THEN {} ELSE Chk("min", o.min = f.min) \union Chk("max", o.max = f.max)
                      \union Chk("mean", o.mean16 >= 0 /\ MeanOk(f, o.mean16)) \union Chk("std", o.std >= 0 /\ StdOk(f, o.std)))
FgApply(s, e) ==
  CASE e.op = "open" ->
         LET n == s.c.n IN
         Res(s, Chk("no-raise", e.obs.ok) \union (IF n < 2 THEN {} ELSE Chk("rate", RateOk(e.obs.rate, s.c.dt)) \union Chk("interval", e.obs.interval = s.c.dt))
                \union Chk("runtime", RuntimeOk(e.obs.runtime, n, e.obs.rate)) \union Chk("blocks", e.obs.blocks = n \div e.spb) \union Chk("size", e.obs.size = s.c.size), <<n, s.c.dt>>)
    [] e.op = "energy" -> Res(s, Chk("no-raise", e.obs.ok) \union Chk("energy", EnergyOk(s, e.obs.e)), s.e)
    [] e.op = "stats" ->
         Res(s, Chk("no-raise", e.obs.ok) \union (IF ~e.obs.ok THEN {} ELSE Chk("energy", EnergyOk(s, e.obs.e)) \union StatsOk(s.fv, e.obs.voltage) \union StatsOk(s.fi, e.obs.current)
                \union (IF s.c.gpio = <<>> THEN {} ELSE StatsOk(s.fg, e.obs.gpio)) \union Chk("runtime", RuntimeOk(e.obs.runtime, s.c.n, e.obs.rate))), <<s.fv, s.fi, s.e>>)
    [] e.op = "step" ->
         LET m == MinStep(s.c.vs, 2000)
             want == IF s.c.step >= 0 THEN s.c.step ELSE IF m = 0 THEN 0 - 1 ELSE m * s.c.gv IN
         Res(s, Chk("no-raise", e.obs.ok) \union Chk("step", e.obs.step = want) \union Chk("same-in-config", e.obs.hrv = want), want)
    [] e.op = "jumps" ->
         \* a jump before sample j shows in the distance of the enclosing blocks (a trailing incomplete block is not looked at)
         LET seen == {j \in {s.c.jumps[k] : k \in DOMAIN s.c.jumps} : ((j - 1) \div e.spb + 1) * e.spb <= s.c.n - 1} IN
         Res(s, Chk("no-raise", e.obs.ok) \union Chk("jumps", e.obs.equal = (seen = {})), seen)
    [] OTHER -> Res(s, {"unknown-op"}, e.op)
INSTANCE TraceBase WITH InitSt <- FgInit, Apply <- FgApply
=============================================================================
