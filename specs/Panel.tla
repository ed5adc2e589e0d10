-------------------------------- MODULE Panel -------------------------------
(* Conversion of recorded solar panels (one iv-curve per source sample) into  *)
(* streams of open-circuit-voltage / short-circuit-current, operating points  *)
(* or whole curves.  Voltages in uV, currents in units of 10 nA on a grid      *)
(* 0, step, 2*step, ...                                                       *)
EXTENDS Integers, Sequences, FiniteSets
Buf == 10000
FullRate == 100000
None == -1
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Abs(a) == IF a < 0 THEN -a ELSE a
\* number of source intervals that get converted: up to the last sample or the wanted number of samples
Cover(n, d) == Max2(0, Min2(n - 1, IF d = None \/ d > n THEN n ELSE d))
Up(sps)     == FullRate \div sps
Aligned(k)  == (k \div Buf) * Buf
RowsOf(n, d, sps) == Aligned(Cover(n, d) * Up(sps))
\* slices of L source intervals (plus the following sample, if there is one)
SliceOf(n, d, L, j) == LET lim == IF d = None \/ d > n THEN n ELSE d
                           lo == j * L hi == Min2(lo + L, lim)
                       IN <<lo, Min2(hi, n - 1)>>     \* intervals lo .. hi-1 are produced
Slices(n, d, L) == LET lim == IF d = None \/ d > n THEN n ELSE d IN (lim + L - 1) \div L

\* curve: sequence of currents at 0, step, ...   (grid index g = position - 1)
Power(c, g)  == g * c[g + 1]
BestPower(c) == LET RECURSIVE go(_, _) go(x, y) == IF x = y THEN Power(c, x) ELSE LET m == (x + y) \div 2 IN Max2(go(x, m), go(m + 1, y)) IN go(0, Len(c) - 1)
\* operating points of the optimal tracker; currents are known up to half a unit
Optimal(c)   == LET best == BestPower(c) - Len(c) IN {g \in 0 .. Len(c) - 1 : Power(c, g) >= best}
\* highest grid voltage below ratio (percent) of the open-circuit voltage (zero when there is none); voc known to 1 uV
BelowRatio(c, step, voc, ratio) ==
   LET Ok(lim) == LET G == {g \in 0 .. Len(c) - 1 : g * step * 10 < lim} IN Max2(0, Cardinality(G) - 1)   \* the grid is ascending
       x == (voc \div 10) * ratio + ((voc % 10) * ratio) \div 10         \* ratio * voc in 0.1 uV
   IN {Ok(x - 20), Ok(x + 20)}
\* estimated open-circuit: first grid point whose current is below 5 % of the short-circuit current, else the highest; zero without current
OcIndex(c) == IF c[1] = 0 THEN {0}
              ELSE LET Est(t) == LET G == {g \in 0 .. Len(c) - 1 : c[g + 1] * 20 < c[1] + t} IN Min2(Len(c) - 1, Len(c) - Cardinality(G))   \* currents never rise
                   IN {Est(-11), Est(0), Est(11)}
=============================================================================
