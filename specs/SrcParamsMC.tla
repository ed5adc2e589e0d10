---------------------------- MODULE SrcParamsMC ----------------------------
(* Laws of the derived thresholds of the virtual source.                       *)
EXTENDS Params, TLC
VARIABLES s, r
Init == /\ s \in [cstore : {0, 1, 4, 5}, cout : {0, 1, 4}, vout : {0, 3, 6}, bdrop : {0, 1}, ven : {0, 3, 5, 8}, vdis : {0, 4, 8}, buck : BOOLEAN, boost : BOOLEAN, feedback : BOOLEAN]
        /\ r \in [ven : 0 .. 14, vdis : {0, 3, 4, 6, 7, 8}, dven : 0 .. 8]
        /\ ThresholdsOk(s, r)
Next == UNCHANGED <<s, r>>
Spec == Init /\ [][Next]_<<s, r>>
\* a buck-converter neither starts nor keeps on below its input need
BuckFloor == s.buck => r.ven >= VPre(s) - 1 /\ r.vdis >= VPre(s)
\* the start never takes more than is stored
DropBounded == r.dven <= MaxI(s.ven, s.vout)
\* charging the output needs no more energy than was available (one step of slack)
DropEnergy == s.cstore > 0 /\ r.dven > 1 => LET v == IF s.buck /\ s.ven <= VPre(s) THEN s.vout ELSE s.ven IN
                s.cstore * (v * v - (v - r.dven + 1) * (v - r.dven + 1)) <= s.cout * s.vout * s.vout
Solvable == \E x \in 0 .. 8 : DropOk(s, s.ven, x)
Modes == LET m == Mode(s, "ivcurve", FALSE) IN
         /\ (s.cstore = 0 => m \in {0, 4}) /\ ~(Boost(s) /\ Feedback(s, "ivcurve")) /\ Mode(s, "ivsample", FALSE) < 16
=============================================================================
