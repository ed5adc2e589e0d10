---------------------------- MODULE ConverterMC ----------------------------
(* All short histories of inputs, loads and (any admissible) storage moves for *)
(* a family of small configurations, with whole voltages taken as exact.       *)
EXTENDS Converter, TLC
CONSTANTS Depth, VMax, Vs, Wide
Modes == {<<TRUE, TRUE, TRUE>>, <<TRUE, FALSE, FALSE>>, <<FALSE, FALSE, FALSE>>} \union (IF Wide THEN {<<TRUE, TRUE, FALSE>>, <<FALSE, FALSE, TRUE>>, <<TRUE, FALSE, TRUE>>} ELSE {})
VARIABLES c, s, out, hist, pgh, lv, obs
vars == <<c, s, out, hist, pgh, lv, obs>>
Lut == [x \in 1 .. LUTN |-> [y \in 1 .. LUTN |-> IF x = 1 THEN 128 ELSE 255]]
Cfgs == {[storage |-> m[1], boost |-> m[2], buck |-> m[3], fb |-> FALSE, logmid |-> FALSE, drain |-> dr, vinmax |-> 8, iinmax |-> 2, vdrop |-> vd,
          r22 |-> BZero, k28 |-> Shift28, vinit |-> vi, leak |-> 1, ven |-> h[2], vdis |-> h[1], dven |-> dv, ncheck |-> n,
          vpgen |-> p[2], vpgdis |-> p[1], immediate |-> im, vlog |-> 2, vboost |-> 2, vmax |-> VMax, vout |-> 3, bdrop |-> 1,
          lutv |-> 0, luti |-> 0, luto |-> 0, lutin |-> Lut, lutout |-> [y \in 1 .. LUTN |-> 32], dacg |-> 1, daco |-> 0, adcg |-> 1, adco |-> 0] :
         m \in Modes, dr \in {0, 2}, vd \in {1}, vi \in IF Wide THEN {2, VMax} ELSE {2}, h \in {<<2, 4>>, <<3, 3>>}, dv \in {0, 2}, n \in {1, 2}, p \in {<<1, 4>>, <<3, 4>>}, im \in BOOLEAN}
Init == /\ c \in Cfgs /\ s = CInit(c) /\ out = 0 /\ hist = <<>> /\ pgh = <<>> /\ lv = 0 /\ obs = [pin |-> BZero, pout |-> BZero, old |-> c.vinit, new |-> c.vinit, first |-> TRUE]
Powers == {BInt(p) : p \in IF Wide THEN {0, 1, 4, 9} ELSE {0, 3, 9}}
Step(v, i, raw) ==
  \E pin \in {p \in Powers : InpOk(c, s, v, i, p)} :
  LET b == VAfterInp(c, s, v)  d == AfterOut(c, b, raw) IN
  \E pout \in {p \in Powers : OutOk(c, b, raw, p)} :
  \E new \in {x \in 0 .. VMax + 1 : CapOk(c, d, pin, pout, x)} :
  LET e == [AfterCap(c, d, pin, pout, new) EXCEPT !.ex = TRUE] IN
  \E n \in States(c, e) :
     /\ s' = n /\ out' = n.out /\ lv' = e.v
     /\ hist' = IF Due(c, e) THEN Append(hist, [v |-> e.v, on |-> n.on]) ELSE hist
     /\ pgh' = IF Due(c, e) \/ c.immediate THEN Append(pgh, [v |-> e.v, on |-> n.on]) ELSE pgh
     /\ obs' = [pin |-> pin, pout |-> pout, old |-> b.v, new |-> new, first |-> FALSE]
     /\ UNCHANGED c
Next == Len(pgh) < Depth /\ Len(hist) < Depth /\ \E v \in Vs, i \in {0, 2}, raw \in {0, 1} : Step(v, i, raw)
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
InLimits == s.v <= c.vmax /\ s.v >= 0 /\ (obs.first \/ obs.new >= 1)
\* output follows the hysteresis declaratively: enabled at some check and not left since
Hyst == s.on <=> \E k \in DOMAIN hist : hist[k].v >= EnThr(c) /\ \A j \in k + 1 .. Len(hist) : hist[j].v >= c.vdis
PwrGood == s.pg <=> \/ \A k \in DOMAIN pgh : pgh[k].v > c.vpgdis
                    \/ \E k \in DOMAIN pgh : pgh[k].v >= c.vpgen /\ pgh[k].on /\ \A j \in k + 1 .. Len(pgh) : pgh[j].v > c.vpgdis
OutputLaw == obs.first \/ /\ (~s.on /\ s.drain = 0 => out = 0)
                          /\ out \in {0, c.vout, s.v - c.bdrop}
                          /\ (c.buck => out <= MaxI(c.vout, s.v - c.bdrop)) /\ out <= s.v
                          /\ (c.buck /\ s.v > c.vout + c.bdrop /\ s.on => out = c.vout)
\* the storage rises only on surplus, falls only on deficit (apart from the limits and the rounding of readings)
Energy == obs.first \/ ~c.storage \/ /\ (BLe(obs.pin, obs.pout) => obs.new <= MaxI(obs.old, 1) + 1)
                                     /\ (BLe(obs.pout, obs.pin) => obs.new >= MinI(obs.old, c.vmax) - 1)
OnlyAtChecks == [][s'.on # s.on => Len(hist') = Len(hist) + 1]_vars
CountBound == s.cnt < MaxI(1, c.ncheck)
=============================================================================
