------------------------------- MODULE Figures -------------------------------
(* Figures derived from a column of a recording: computed block by block, the *)
(* partial figures are combined. All values are whole numbers (uV, nA).        *)
EXTENDS Integers, Sequences, FiniteSets, Big
MaxI(a, b) == IF a > b THEN a ELSE b
MinI(a, b) == IF a < b THEN a ELSE b
\* ---- partial figures
None == [n |-> 0, sum |-> 0, sq |-> 0, min |-> 0, max |-> 0]
One(x) == [n |-> 1, sum |-> x, sq |-> x * x, min |-> x, max |-> x]
Join(a, b) == IF a.n = 0 THEN b ELSE IF b.n = 0 THEN a
              ELSE [n |-> a.n + b.n, sum |-> a.sum + b.sum, sq |-> a.sq + b.sq, min |-> MinI(a.min, b.min), max |-> MaxI(a.max, b.max)]
\* ---- the same for large values (negative ones do not occur)
BNone == [n |-> 0, sum |-> BZero, sq |-> BZero, min |-> 0, max |-> 0]
BOne(x) == [n |-> 1, sum |-> BInt(x), sq |-> BMul(BInt(x), BInt(x)), min |-> x, max |-> x]
BJoin(a, b) == IF a.n = 0 THEN b ELSE IF b.n = 0 THEN a
               ELSE [n |-> a.n + b.n, sum |-> BAdd(a.sum, b.sum), sq |-> BAdd(a.sq, b.sq), min |-> MinI(a.min, b.min), max |-> MaxI(a.max, b.max)]
\* balanced, as the result must not depend on the grouping (checked in FiguresMC)
RECURSIVE BFold(_, _, _, _, _)
BFold(xs, g, o, a, b) == IF a > b THEN BNone ELSE IF a = b THEN BOne(xs[a] * g + o)
   ELSE LET m == (a + b) \div 2 IN BJoin(BFold(xs, g, o, a, m), BFold(xs, g, o, m + 1, b))
\* mean is reported in 1/16, deviation in whole units
MeanOk(f, m16) == BNear(BMul(BInt(m16), BInt(f.n)), BMul(f.sum, BInt(16)), BInt(f.n))
\* n^2 * variance
Spread(f) == LET a == BMul(f.sq, BInt(f.n))
                 b == BMul(f.sum, f.sum) IN IF BLe(b, a) THEN BSub(a, b) ELSE BZero
StdOk(f, s) == LET hi == BMul(BInt(f.n), BInt(s + 1))
                   lo == BMul(BInt(f.n), BInt(MaxI(s - 1, 0))) IN
               BLe(Spread(f), BMul(hi, hi)) /\ BLe(BMul(lo, lo), Spread(f))
\* ---- energy: sum of products
RECURSIVE Prod(_, _, _, _)
Prod(vs, cs, a, b) == IF a > b THEN BZero ELSE IF a = b THEN BMul(BInt(vs[a]), BInt(cs[a]))
   ELSE LET m == (a + b) \div 2 IN BAdd(Prod(vs, cs, a, m), Prod(vs, cs, m + 1, b))
Scaled(xs, g, o) == [k \in DOMAIN xs |-> xs[k] * g + o]
\* ---- smallest positive step between neighbours, 0 if there is none
MinStep(vs, upto) == LET d == {vs[k + 1] - vs[k] : k \in 1 .. MinI(Len(vs), upto) - 1}
                         p == {x \in d : x > 0} IN
                     IF p = {} THEN 0 ELSE CHOOSE x \in p : \A y \in p : x <= y
\* ---- time: rate [1/s] and runtime of n samples with dt [ns] in between
AbsI(x) == IF x < 0 THEN -x ELSE x
RateOk(rate, dt) == rate = MaxI((2000000000 \div dt + 1) \div 2, 1)
\* runtime in ms, rounded to 0.1 s
RuntimeOk(ms, n, rate) == ms % 100 = 0 /\ (rate > 0 => LET full == n \div rate
                                                          rest == n % rate IN
                            AbsI(ms - full * 1000 - (rest * 1000) \div rate) <= 51)
=============================================================================
