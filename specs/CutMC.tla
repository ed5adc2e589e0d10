------------------------------- MODULE CutMC -------------------------------
(* (a) block-wise decimation delivers exactly every n-th row for every block  *)
(*     size, (b) results of different requests never share a file and once    *)
(*     created stay as they are.                                              *)
EXTENDS Cut, TLC
CONSTANTS MaxLen, MaxN, MaxM, MaxOps
VARIABLES what, blk, files, nops
vars == <<what, blk, files, nops>>
NoBlk == [len |-> 0, n |-> 1, m |-> 1, i |-> 0, out |-> <<>>]
InitBlk == /\ what = "block" /\ files = <<>> /\ nops = 0
           /\ \E len \in 1 .. MaxLen, n \in 1 .. MaxN, m \in 1 .. MaxM :
                blk = [len |-> len, n |-> n, m |-> m, i |-> 0, out |-> <<>>]
Done(b)   == b.i * BlockLen(b.len, b.n, b.m) >= b.len
BlkStep == /\ what = "block" /\ ~Done(blk)
           /\ LET bl == BlockLen(blk.len, blk.n, blk.m)
                  lo == blk.i * bl
                  hi == Min2(lo + bl, blk.len)               \* rows lo .. hi-1 are read
                  dest == blk.len \div blk.n
                  cnt == (hi - lo + blk.n - 1) \div blk.n    \* rows lo, lo+n, ...
                  take == Max2(0, Min2(cnt, dest - Len(blk.out)))
              IN  blk' = [blk EXCEPT !.i = @ + 1, !.out = @ \o [j \in 1 .. take |-> lo + (j - 1) * blk.n]]
           /\ UNCHANGED <<what, files, nops>>
BlockExact == (what = "block" /\ Done(blk)) => blk.out = Decimated(blk.len, blk.n)

\* requests on one recording
Rec == [n |-> 8000, sps |-> 1000, tb |-> 0, dt |-> 1000, vb |-> 0, vs |-> 1, cb |-> 0, cs |-> 0]
Reqs == [s : {None, 0, 1000, 2500}, e : {None, 800, 4000, 8000, 9000}, num : {1, 2, 4, 5}, den : {2}]
          \union [s : {None, 1000}, e : {None}, num : {1, 2, 3, 4, 7}, den : {1}]
InitReq == what = "request" /\ blk = NoBlk /\ files = <<>> /\ nops = 0
Contents(q) == <<TimeCol(Rec, q), ValCol(Rec, q, 0, 1)>>
ReqStep == /\ what = "request" /\ nops < MaxOps
           /\ \E q \in Reqs :
                /\ ~Refused(Rec, q)
                /\ LET k == Key(Rec, q)
                   IN  files' = IF k = SourceKey \/ \E i \in DOMAIN files : files[i].k = k THEN files
                                ELSE Append(files, [k |-> k, c |-> Contents(q)])
           /\ nops' = nops + 1 /\ UNCHANGED <<what, blk>>
Init == InitBlk \/ InitReq
Next == BlkStep \/ ReqStep
Spec == Init /\ [][Next]_vars
\* the identity determines the content: a stored result can be handed out for any later equal request
KeyDetermines == \A q, p \in Reqs : (~Refused(Rec, q) /\ ~Refused(Rec, p) /\ Key(Rec, q) = Key(Rec, p)) => Contents(q) = Contents(p)
ASSUME KeyDetermines
SourceKeyIsSource == \A q \in Reqs : (~Refused(Rec, q) /\ Key(Rec, q) = SourceKey)
                        => Contents(q) = <<Prog(Rec.tb, Rec.dt, Rec.n), Prog(0, 1, Rec.n)>>
ASSUME SourceKeyIsSource
Distinct == \A i, j \in DOMAIN files : i # j => (files[i].k # files[j].k /\ files[i].c # files[j].c)
Kept == [][\A i \in DOMAIN files : files'[i] = files[i]]_vars
BigEnough == \A i \in DOMAIN files : files[i].c[1][3] >= MinRows
=============================================================================
