------------------------------ MODULE FiguresMC ------------------------------
(* A column is cut into blocks of any size, blocks are processed in any order *)
(* and combined; result does not depend on it.                                *)
EXTENDS Figures, TLC, Json
CONSTANTS N, V
VARIABLES col, blk, todo, acc
vars == <<col, blk, todo, acc>>
Blocks(n, b) == 0 .. ((n + b - 1) \div b) - 1
Block(k) == SubSeq(col, k * blk + 1, MinI((k + 1) * blk, Len(col)))
RECURSIVE Fold(_)
Fold(s) == IF s = <<>> THEN None ELSE Join(One(Head(s)), Fold(Tail(s)))
RECURSIVE BF(_)
BF(s) == IF s = <<>> THEN BNone ELSE BJoin(BOne(Head(s)), BF(Tail(s)))
Init == /\ col \in UNION {[1 .. n -> 0 .. V] : n \in 0 .. N} /\ blk \in 1 .. N + 1
        /\ todo = Blocks(Len(col), blk) /\ acc = None
Next == \E k \in todo : todo' = todo \ {k} /\ acc' = Join(acc, Fold(Block(k))) /\ UNCHANGED <<col, blk>>
Spec == Init /\ [][Next]_vars
Done == todo = {}
Independent == Done => acc = Fold(col)
Extremes == Done /\ col # <<>> => (\A k \in DOMAIN col : acc.min <= col[k] /\ col[k] <= acc.max) /\ (\E k \in DOMAIN col : col[k] = acc.min) /\ (\E k \in DOMAIN col : col[k] = acc.max)
Counted == Done => acc.n = Len(col)
\* large numbers agree with small ones
Agree == Done => LET f == BF(col) IN f.n = acc.n /\ f.sum = BInt(acc.sum) /\ f.sq = BInt(acc.sq) /\ f.min = acc.min /\ f.max = acc.max
\* mean of the means (and alike) would not do
MeanFits == Done /\ acc.n > 0 => \A m \in 0 .. 16 * V : MeanOk(BF(col), m) => AbsI(m * acc.n - 16 * acc.sum) <= acc.n
StepOk == LET s == MinStep(col, N) IN s >= 0 /\ (s > 0 => \E k \in 1 .. Len(col) - 1 : col[k + 1] - col[k] = s)
\* ---- recordings for the real code
GInit == /\ \E n \in 0 .. 9 : \E b \in 1 .. 10 : \E ty \in {"ivsample", "ivcurve"} : \E c \in BOOLEAN : col = <<n, b, ty, c>> /\ PrintT("GEN|" \o ToJson([n |-> n, blk |-> b, dtype |-> ty, cfg |-> c]))
         /\ blk = 1 /\ todo = {} /\ acc = None
GSpec == GInit /\ [][FALSE]_vars
=============================================================================
