---------------------------- MODULE HarvesterMC ----------------------------
(* What the algorithms guarantee on every stream.                              *)
EXTENDS Harvester, TLC, FiniteSets
CONSTANTS Algs, Window, Levels, Currents, MaxLen, Periodic
VARIABLES c, s, n, curve, out, hist, since
vars == <<c, s, n, curve, out, hist, since>>
Base == [alg |-> "cv", window |-> Window, vset |-> 3000, vmin |-> 2000, vmax |-> 5000, step |-> 1000, climit |-> 1, setpoint |-> 192,
         interval |-> 5, duration |-> 2, rising |-> TRUE, linear |-> FALSE]
Cfgs == { [Base EXCEPT !.alg = a, !.linear = li, !.rising = r, !.interval = iv, !.duration = d, !.vset = vs] :
            a \in Algs, li \in BOOLEAN, r \in BOOLEAN, iv \in {2, 5, 2 * Window + 1}, d \in {1, 2}, vs \in {2000, 3500} }
Samples == { <<v * 1000, i>> : v \in Levels, i \in Currents }
Curves == [1 .. Window -> Samples]
\* a physical curve: ramp with non-increasing current
Ramp(cu) == \A k \in 1 .. Window - 1 : cu[k][1] < cu[k + 1][1] /\ cu[k][2] >= cu[k + 1][2]
NoCurve == <<>>
Init == /\ c \in {x \in Cfgs : (x.alg \in {"cv", "opt"} => x.interval = 5 /\ x.duration = 2) /\ (x.rising \/ x.alg = "po")}
        /\ IF Periodic THEN curve \in {cu \in Curves : c.alg = "opt" \/ Ramp(cu)} ELSE curve = NoCurve
        /\ s = HInit(c) /\ n = 0 /\ out = <<0, 0>> /\ hist = <<>> /\ since = 0
Feed(x) == LET m == HStep(c, s, x[1], x[2]) IN
           /\ s' = m /\ out' = HOut(c, m, x[1], x[2]) /\ n' = n + 1
           /\ hist' = IF Periodic THEN <<>> ELSE Append(hist, x)
           /\ since' = IF m.set # s.set THEN 1 ELSE since + 1
           /\ UNCHANGED <<c, curve>>
Next == /\ n < MaxLen
        /\ IF Periodic THEN Feed(curve[(n % Window) + 1]) ELSE \E x \in Samples : Feed(x)
Spec == Init /\ [][Next]_vars
Seen == {hist[k] : k \in DOMAIN hist} \union {<<0, 0>>}
\* without extrapolation outputs are samples that were seen
OutputSeen == (~Periodic /\ (~c.linear \/ c.alg = "opt")) => out \in Seen
\* set-point stays within limits (a fraction of a voltage within limits for voc)
SetLimited == /\ (c.alg = "po" /\ s.pos = 0 /\ n > 0) => (s.set <= c.vmax /\ s.set >= c.vmin)
              /\ c.alg = "voc" => (s.vocN <= c.vmax /\ s.vocN >= Max2(1000, c.vmin) /\ (s.set <= c.vmax \/ n = 0) /\ s.set >= 0)
              /\ c.alg = "cv" => s.set = c.vset + 1
\* the set-point only moves at the interval (po) or during/at end of the measurement (voc)
AdaptsAtInterval == [][ /\ (c.alg = "po" /\ s'.set # s.set) => s'.pos = 0
                        /\ (c.alg = "voc" /\ s'.set # s.set) => s'.pos <= c.duration ]_vars
OptLimited == (c.alg = "opt" /\ out # <<0, 0>>) => (out[1] >= c.vmin /\ out[1] <= c.vmax)
\* no output older than two windows
OptFresh == (c.alg = "opt" /\ ~Periodic /\ out # <<0, 0>>) =>
              \E k \in DOMAIN hist : k >= Len(hist) - AgeMax(c) /\ hist[k] = out
\* on a steadily repeated curve: the optimum is found and kept
P(x) == x[1] * x[2]
InLim(cu) == {cu[k] : k \in {j \in 1 .. Window : cu[j][1] >= c.vmin /\ cu[j][1] <= c.vmax}}
OptFound == (c.alg = "opt" /\ Periodic /\ n >= Window /\ InLim(curve) # {}) => P(out) = (CHOOSE m \in {P(x) : x \in InLim(curve)} : \A x \in InLim(curve) : P(x) <= m)
\* cv: held sample is one of the two around the set-point if steps are fine enough
Fine(cu) == \A k \in 1 .. Window - 1 : cu[k + 1][1] - cu[k][1] < Near(c)
CvNearest == (c.alg = "cv" /\ Periodic /\ ~c.linear /\ n >= Window /\ Fine(curve) /\ curve[Window][1] - curve[1][1] >= Near(c)
              /\ curve[1][1] < s.set /\ curve[Window][1] >= s.set) =>
                \A k \in 1 .. Window : Abs(out[1] - s.set) <= Abs(curve[k][1] - s.set)
\* voc: the lowest open-circuit voltage of the curve is found and kept
OpenV(cu) == {cu[k][1] : k \in {j \in 1 .. Window : cu[j][2] < c.climit /\ cu[j][1] >= c.vmin /\ cu[j][1] <= c.vmax}}
VocFound == (c.alg = "voc" /\ Periodic /\ n >= Window /\ OpenV(curve) # {}) => \A v \in OpenV(curve) : s.vocN <= v /\ s.vocN \in OpenV(curve)
=============================================================================
