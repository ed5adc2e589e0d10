----------------------------- MODULE ReadoutMC -----------------------------
EXTENDS Readout, FiniteSets
CONSTANTS MaxN, MaxB
VARIABLES r, it, got      \* two iterations, rows delivered so far by each
vars == <<r, it, got>>
Its == {1, 2}
Init == /\ r \in [n : 0 .. MaxN, vb : {0}, cb : {0}, tb : {0}, dt : {1}]
        /\ it = [k \in Its |-> Idle] /\ got = [k \in Its |-> <<>>]
Begin(k) == \E s \in 0 .. 2, e \in {-999, 0, 1, 2, 9}, b \in 1 .. MaxB :
              /\ it[k] = Idle
              /\ it' = [it EXCEPT ![k] = Start(r, s, e, b, TRUE, FALSE)]
              /\ UNCHANGED <<r, got>>
Pull(k) == /\ HasNext(it[k])
           /\ got' = [got EXCEPT ![k] = @ \o [j \in 1 .. it[k].b |-> First(it[k]) + j - 1]]
           /\ it' = [it EXCEPT ![k] = Advance(@)]
           /\ UNCHANGED r
Next == \E k \in Its : Begin(k) \/ Pull(k)
Spec == Init /\ [][Next]_vars
\* whatever was delivered is a gap-free ascending run of existing rows made of whole blocks
Partition == \A k \in Its :
   /\ Len(got[k]) % it[k].b = 0
   /\ \A j \in 1 .. Len(got[k]) : got[k][j] < r.n
   /\ \A j \in 1 .. Len(got[k]) - 1 : got[k][j + 1] = got[k][j] + 1
\* a full read delivers everything but an incomplete tail
Complete == \A k \in Its : (it[k] # Idle /\ ~HasNext(it[k]) /\ it[k].e = r.n \div it[k].b /\ Len(got[k]) > 0)
               => got[k][Len(got[k])] >= r.n - it[k].b
Independent == [][\A k \in Its : (it'[k] = it[k]) => (got'[k] = got[k])]_vars
=============================================================================
