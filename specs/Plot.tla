-------------------------------- MODULE Plot --------------------------------
(* Plots of recordings: which samples are shown, in which units, and where    *)
(* the figures are stored.                                                    *)
EXTENDS Cut
MinShown == 5
\* samples of the requested range (clamped to reported runtime and to the samples there are)
Span(r, q)  == Last(r, q) - First(r, q)
Shown(r, q) == Range(r, q) >= MinShown
\* whole factors that reduce the span towards the display limit me (within the resolution of the derived rate)
Factors(r, q, me) == IF me > 2 * Span(r, q) THEN {1}
                     ELSE Max2(1, (Span(r, q) * 1000) \div (me * 1001)) .. Max2(1, (Span(r, q) * 1001) \div (me * 1000))
RowsF(r, q, f)  == Range(r, q) \div f
TimeF(r, q, f, rel) == Prog((IF rel THEN 0 ELSE r.tb) + Min2(First(r, q), r.n) * r.dt, f * r.dt, RowsF(r, q, f))
ValF(r, q, b, s) == Prog(b + Min2(First(r, q), r.n) * s, s, RowsF(r, q, 1))
\* lines of a figure: axis -> sequence of recordings -> values (mV, uA, nW)
Volt(r, q, i) == r.vb + (First(r, q) + i) * r.vs
Curr(r, q, i) == r.cb + (First(r, q) + i) * r.cs
Line(r, q, axis) == [i \in 1 .. RowsF(r, q, 1) |->
   CASE axis = "voltage" -> Volt(r, q, i - 1) [] axis = "current" -> Curr(r, q, i - 1) [] OTHER -> Volt(r, q, i - 1) * Curr(r, q, i - 1)]
Axes(pwr) == IF pwr THEN <<"power">> ELSE <<"voltage", "current", "power">>
\* identity of a stored plot
PlotKey(r, q) == <<SecS(q), SecE(r, q)>>
\* a batch: which recordings get drawn
Drawn(files, q) == {i \in DOMAIN files : files[i].usable /\ files[i].addressed /\ Shown(files[i].r, q)}
Joint(files, multi) == multi /\ Cardinality({i \in DOMAIN files : files[i].addressed}) > 1
=============================================================================
