-------------------------------- MODULE Cut --------------------------------
(* Cutting and downsampling recordings into new files.                       *)
(* A recording r: [n, sps, tb, dt, vb, vs, cb, cs]: n rows, sps samples/s,     *)
(* time tb + i*dt (us), voltage vb + i*vs, current cb + i*cs (raw)             *)
EXTENDS Integers, Sequences, FiniteSets

None       == -1
FullRate   == 100000
Buf        == 10000
MinRows    == 1000
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b

\* block-wise decimation: input rows in blocks of at most m rows, as whole multiples of the factor
BlockLen(len, n, m) == Min2(len, Max2(1, m \div n) * n)
\* declared result: rows first, first + n, ...
Decimated(len, n) == [i \in 1 .. len \div n |-> (i - 1) * n]

\* reported runtime in ms (resolution 100 ms)
Runtime(r) == (((r.n * 1000) \div r.sps + 50) \div 100) * 100
\* a request: start and end in ms (None = omitted), factor num/den
SecS(q)    == IF q.s = None THEN 0 ELSE Max2(0, q.s)
SecE(r, q) == IF q.e = None THEN Runtime(r) ELSE Min2(Runtime(r), q.e)
First(r, q) == (SecS(q) * r.sps) \div 1000
Last(r, q)  == (SecE(r, q) * r.sps) \div 1000
Factor(q)   == q.num \div q.den
Refused(r, q) == \/ Last(r, q) < First(r, q)
                 \/ q.num < q.den
                 \/ (Last(r, q) - First(r, q)) < MinRows * Factor(q)
\* identity of the result
Key(r, q) == [cut |-> IF SecS(q) # 0 \/ SecE(r, q) # Runtime(r) THEN <<SecS(q), SecE(r, q)>> ELSE <<>>,
              n |-> Factor(q)]
SourceKey == [cut |-> <<>>, n |-> 1]

Range(r, q) == Min2(Last(r, q), r.n) - Min2(First(r, q), r.n)
\* the sample rate is derived from the time column: us per row
RateFull(r, nn) == r.dt * nn = 1000000 \div FullRate
Aligned(rows) == (rows \div Buf) * Buf
Rows(r, q) == LET k == Range(r, q) \div Factor(q)
              IN  IF k > 1 /\ RateFull(r, Factor(q)) THEN Aligned(k) ELSE k
Prog(f, s, n) == IF n = 0 THEN <<0, 0, 0>> ELSE <<f, IF n > 1 THEN s ELSE 0, n>>
TimeCol(r, q) == LET f == Min2(First(r, q), r.n) IN Prog(r.tb + f * r.dt, Factor(q) * r.dt, Rows(r, q))
ValCol(r, q, b, s) == LET f == Min2(First(r, q), r.n) IN Prog(b + f * s, s, Rows(r, q))

\* default factors of the batch command
DefaultList == <<5, 25, 100, 500, 2500, 10000, 50000, 250000, 1000000>>
=============================================================================
