------------------------------ MODULE CalibMC ------------------------------
(* A cape calibration travels over the routes (bytes, decoded again); laws of  *)
(* conversion for small pairs.                                                  *)
EXTENDS Calib, TLC
CONSTANTS G, O, R, Vals
VARIABLES cape, orig, p, raw, hops
vars == <<cape, orig, p, raw, hops>>
Names == {Slots[k] : k \in 1 .. 8}
Distinct == [s \in Names |-> LET k == CHOOSE k \in 1 .. 8 : Slots[k] = s IN [g |-> 2 * k, o |-> 2 * k + 1]]
Init == /\ \/ orig \in [Names -> {[g |-> a, o |-> b] : a \in Vals, b \in Vals}] /\ p = [e |-> 20, g |-> 1, o |-> 0] /\ raw = 0
           \/ orig = Distinct /\ p \in {[e |-> 20, g |-> a, o |-> b * c] : a \in G, b \in O, c \in {1, -1}} /\ raw \in R
        /\ cape = orig /\ hops = 0
Next == hops < 2 /\ hops' = hops + 1 /\ cape' = Decode(Encode(cape)) /\ UNCHANGED <<orig, p, raw>>
Spec == Init /\ [][Next]_vars
Kept == cape = orig
Num(x) == IF x.neg THEN -x.b[1] - 4096 * x.b[2] ELSE x.b[1] + 4096 * x.b[2]
RoundTrip == ToRaw(p, Num(ToSi(p, BInt(raw), TRUE))) = raw
Clamp == ~ToSi(p, BInt(raw), FALSE).neg /\ (raw * p.g + p.o >= 0 => ToSi(p, BInt(raw), FALSE) = ToSi(p, BInt(raw), TRUE))
Monotone == Num(ToSi(p, BInt(raw + 1), TRUE)) > Num(ToSi(p, BInt(raw), TRUE))
Nearest == \A si \in {raw, raw + 1} : ToRaw(p, si) > 0 => 2 * AbsI(ToRaw(p, si) * p.g + p.o - si) <= p.g
Separate == Series(Distinct, "harvester", TRUE) # Series(Distinct, "emulator", TRUE) /\ Series(Distinct, "emulator", TRUE) # Series(Distinct, "emulator", FALSE)
=============================================================================
