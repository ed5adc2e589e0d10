------------------------------- MODULE PanelMC ------------------------------
(* Slices join without gaps or overlaps; operating points obey their laws.    *)
EXTENDS Panel, TLC, Json
CONSTANTS MaxN, MaxL, Pts, MaxI
VARIABLES s, out
vars == <<s, out>>
Curves == {c \in [1 .. Pts -> 0 .. MaxI] : \A i \in 1 .. Pts - 1 : c[i] >= c[i + 1]}
ASSUME \A c \in Curves : 0 \in {Power(c, g) : g \in 0 .. Pts - 1} /\ Optimal(c) # {}
                         /\ \E g \in Optimal(c) : \A h \in 0 .. Pts - 1 : Power(c, g) >= Power(c, h)
ASSUME \A c \in Curves : \A g \in OcIndex(c) : c[1] > 0 => (\A h \in 0 .. g - 1 : c[h + 1] * 20 + 11 >= c[1])
ASSUME \A c \in Curves, voc \in {0, 5, 50, 100, 150, 400, 900} : \A g \in BelowRatio(c, 100, voc, 80) : g = 0 \/ g * 1000 < voc * 8 + 21
Init == /\ \E n \in 0 .. MaxN, d \in {None} \union 0 .. MaxN + 1, L \in 1 .. MaxL : s = [n |-> n, d |-> d, L |-> L, j |-> 0]
        /\ out = <<>>
Next == /\ s.j < Slices(s.n, s.d, s.L)
        /\ LET x == SliceOf(s.n, s.d, s.L, s.j) IN out' = out \o [i \in 1 .. Max2(0, x[2] - x[1]) |-> x[1] + i - 1]
        /\ s' = [s EXCEPT !.j = @ + 1]
Spec == Init /\ [][Next]_vars
Gapless == \A i \in DOMAIN out : out[i] = i - 1
Complete == s.j = Slices(s.n, s.d, s.L) => Len(out) = Cover(s.n, s.d)
GInit == /\ s \in [n : {1, 2, 3, 5, 6, 7, 8, 9, 11}, d : {None, 0, 5, 6, 8}, L : {1, 2, 3, 4, 5, 100}, sps : {10, 20}, what : {"isc_voc", "ivsample", "ivcurve"}]
         /\ out = <<>> /\ PrintT("GEN|" \o ToJson(s))
GSpec == GInit /\ [][FALSE]_vars
=============================================================================
