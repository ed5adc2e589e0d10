----------------------------- MODULE Harvester -----------------------------
(* Harvesting algorithms on a stream of iv-samples (voltage in uV, current in  *)
(* nA). Config c: [alg ("pass"|"cv"|"voc"|"po"|"opt"), window, vset, vmin, vmax,*)
(* step, climit, setpoint (of 256), interval, duration, rising, linear]        *)
EXTENDS Integers, Sequences, Wide
Abs(x) == IF x < 0 THEN -x ELSE x
Max2(a, b) == IF a > b THEN a ELSE b
HInit(c) ==
  [set |-> c.vset + 1, hv |-> 0, hc |-> 0, lv |-> 0, lc |-> 0, below |-> FALSE, dv |-> 0, dc |-> 0,    \* constant voltage
   pos |-> IF c.interval > 2 * c.window THEN c.interval - 2 * c.window ELSE -1,                       \* position in interval (-1: wraps at once)
   vocN |-> c.vmax, ageN |-> 0, vocX |-> c.vmax, ageX |-> 0,                                          \* N: in use, X: candidate
   rising |-> c.rising, pstep |-> c.step, plast |-> WZero,
   oN |-> [v |-> 0, c |-> 0, p |-> WZero], oX |-> [v |-> 0, c |-> 0, p |-> WZero]]
AgeMax(c) == 2 * c.window
Near(c) == 4 * c.step

\* hold the sample next to the set-point; between crossings optionally extrapolate towards it
Cv(c, s, v, i) ==
  LET below == v < s.set
      dist == Abs(v - s.set)  distL == Abs(s.lv - s.set)
      crossing == below # s.below /\ Abs(v - s.lv) < Near(c)
      upd == [s EXCEPT !.dv = v - s.lv, !.dc = i - s.lc]
      s1 == IF crossing
            THEN IF dist < distL /\ dist < Near(c) THEN [upd EXCEPT !.hv = v, !.hc = i]
                 ELSE IF distL < dist /\ distL < Near(c) THEN [upd EXCEPT !.hv = s.lv, !.hc = s.lc]
                 ELSE s
            ELSE IF c.linear
            THEN IF (s.hv < s.set) = (s.dv > 0) THEN [s EXCEPT !.hv = @ + s.dv, !.hc = @ + s.dc]
                 ELSE [s EXCEPT !.hv = IF @ > s.dv THEN @ - s.dv ELSE 0, !.hc = IF @ > s.dc THEN @ - s.dc ELSE 0]
            ELSE s
  IN  [s1 EXCEPT !.lv = v, !.lc = i, !.below = below]

Tick(c, s) == [s EXCEPT !.pos = IF @ = -1 \/ @ + 1 >= c.interval THEN 0 ELSE @ + 1]

\* lowest voltage with (nearly) no current counts as open-circuit voltage; measured during `duration`, then a fraction of it is set
Voc(c, s0, v, i) ==
  LET s1 == [Tick(c, s0) EXCEPT !.ageN = @ + 1, !.ageX = @ + 1]
      cand == i < c.climit /\ v < s1.vocX /\ v >= Max2(1000, c.vmin) /\ v <= c.vmax
      s2 == IF cand THEN [s1 EXCEPT !.vocX = v, !.ageX = 0] ELSE s1
      s3 == IF s2.ageN > AgeMax(c) \/ s2.vocX <= s2.vocN
            THEN [s2 EXCEPT !.ageN = s2.ageX, !.vocN = s2.vocX, !.ageX = 0, !.vocX = c.vmax] ELSE s2
      s4 == Cv(c, s3, v, i)
  IN  IF s4.pos < c.duration THEN [s4 EXCEPT !.set = s4.vocN]
      ELSE IF s4.pos = c.duration THEN [s4 EXCEPT !.set = (s4.vocN * c.setpoint) \div 256]
      ELSE s4

\* perturb and observe, once per interval
Limit(c, s) ==
  LET turn(x, set, up) == [x EXCEPT !.set = set, !.rising = up, !.pstep = c.step]
      a == IF s.set >= c.vmax THEN turn(s, c.vmax, FALSE) ELSE s
      b == IF a.set <= c.vmin THEN turn(a, c.vmin, TRUE) ELSE a
  IN  IF b.set <= c.step THEN turn(b, c.step, TRUE) ELSE b
Po(c, s0, v, i) ==
  LET s1 == Cv(c, Tick(c, s0), v, i)
      p == Mul(s1.hv, s1.hc)
      d(up) == IF up THEN 1 ELSE -1
      s2 == IF WLt(s1.plast, p) THEN [s1 EXCEPT !.set = @ + d(s1.rising) * s1.pstep, !.pstep = 2 * @]
            ELSE IF WLe(p, WZero) /\ s1.set > 0 THEN [s1 EXCEPT !.rising = TRUE, !.pstep = c.step, !.set = @ - Near(c)]
            ELSE [s1 EXCEPT !.rising = ~@, !.pstep = c.step, !.set = @ + d(~s1.rising) * c.step]
  IN  IF s1.pos # 0 THEN s1 ELSE Limit(c, [s2 EXCEPT !.plast = p])

\* best sample within limits, replaced when outdone or outdated
Opt(c, s0, v, i) ==
  LET p == Mul(v, i)
      s1 == [s0 EXCEPT !.ageN = @ + 1, !.ageX = @ + 1]
      s2 == IF WLe(s1.oX.p, p) /\ v >= c.vmin /\ v <= c.vmax THEN [s1 EXCEPT !.ageX = 0, !.oX = [v |-> v, c |-> i, p |-> p]] ELSE s1
  IN  IF s2.ageN > AgeMax(c) \/ WLe(s2.oN.p, s2.oX.p)
      THEN [s2 EXCEPT !.ageN = s2.ageX, !.oN = s2.oX, !.ageX = 0, !.oX = [v |-> 0, c |-> 0, p |-> WZero]] ELSE s2

Passes(c) == c.window <= 1 \/ c.alg = "pass"
HStep(c, s, v, i) ==
  CASE Passes(c) -> s
    [] c.alg = "cv" -> Cv(c, s, v, i)
    [] c.alg = "voc" -> Voc(c, s, v, i)
    [] c.alg = "po" -> Po(c, s, v, i)
    [] c.alg = "opt" -> Opt(c, s, v, i)
HOut(c, s, v, i) == IF Passes(c) THEN <<v, i>> ELSE IF c.alg = "opt" THEN <<s.oN.v, s.oN.c>> ELSE <<s.hv, s.hc>>
=============================================================================
