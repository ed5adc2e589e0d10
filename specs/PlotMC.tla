------------------------------- MODULE PlotMC -------------------------------
(* Histories of stored plots, and the selection of samples for every request. *)
EXTENDS Plot, TLC, Json
CONSTANTS Lens, Rates, Marks, Limits, MaxOps
ManyMarks == {-1, -50, 0, 4, 5, 90, 100, 500, 970, 1000, 1030, 2500, 26000}
FewMarks  == {-1, -50, 4, 100, 970, 1000, 1030}
VARIABLES r, stored, nops
vars == <<r, stored, nops>>
Recs == {[n |-> n, sps |-> p, tb |-> 70, dt |-> 1000000 \div p, vb |-> 1, vs |-> 1, cb |-> 2, cs |-> 0] : n \in Lens, p \in Rates}
Reqs == [s : Marks, e : Marks]
Init == r \in Recs /\ stored = <<>> /\ nops = 0
Plot(q) == /\ Shown(r, q)
           /\ stored' = IF \E i \in DOMAIN stored : stored[i].k = PlotKey(r, q) THEN stored
                        ELSE Append(stored, [k |-> PlotKey(r, q), c |-> <<First(r, q), Range(r, q)>>])
Next == /\ nops < MaxOps /\ nops' = nops + 1 /\ r' = r
        /\ \E q \in Reqs : Plot(q)
Spec == Init /\ [][Next]_vars
Kept     == [][\A i \in DOMAIN stored : stored'[i] = stored[i]]_vars
Distinct == \A i, j \in DOMAIN stored : i # j => stored[i].k # stored[j].k
\* a stored plot can stand for every later request with the same identity
KeyDetermines == nops = 0 => \A q, p \in Reqs : (Shown(r, q) /\ Shown(r, p) /\ PlotKey(r, q) = PlotKey(r, p)) => (First(r, q) = First(r, p) /\ Range(r, q) = Range(r, p))
Within == nops = 0 => \A q \in Reqs, me \in Limits : Shown(r, q) => \A f \in Factors(r, q, me) :
             LET t == TimeF(r, q, f, TRUE) IN
             /\ t[3] >= 1
             /\ t[1] = First(r, q) * r.dt
             /\ t[1] + (t[3] - 1) * t[2] < Last(r, q) * r.dt          \* nothing outside of the range
             /\ t[1] + (t[3] - 1) * t[2] < r.n * r.dt                   \* nor of the recording
             /\ (Range(r, q) = Span(r, q) /\ Span(r, q) >= 2 * me) => (t[3] >= me - 1 - me \div 500 /\ t[3] <= 2 * me)
             /\ (Span(r, q) < me) => (f = 1 /\ t[3] = Range(r, q))
VARIABLE g
GInit == /\ g \in [n : Lens, sps : Rates, s : Marks, e : Marks, me : Limits, rel : BOOLEAN] /\ r = 0 /\ stored = <<>> /\ nops = 0
         /\ PrintT("GEN|" \o ToJson(g))
GSpec == GInit /\ [][FALSE]_<<g, vars>>
MInit == Init /\ g = 0
MNext == Next /\ g' = g
MSpec == MInit /\ [][MNext]_<<g, vars>>
=============================================================================
