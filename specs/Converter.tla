----------------------------- MODULE Converter -----------------------------
(* Converter stage of the virtual source: voltages in uV, currents in nA,      *)
(* power in fW (Big). Config c holds the registers of the real-time units.     *)
(* The intermediate voltage is a real number of which only the rounded value v *)
(* is known (exactly if ex), so a step is a relation: Next states that explain *)
(* what was observed.                                                          *)
EXTENDS Integers, Sequences, FiniteSets, Big
LUTN == 12
AbsI(x) == IF x < 0 THEN -x ELSE x
MaxI(a, b) == IF a > b THEN a ELSE b
MinI(a, b) == IF a < b THEN a ELSE b
Log2(n) == IF n < 2 THEN 0 ELSE CHOOSE k \in 1 .. 30 : 2 ^ k <= n /\ (k = 30 \/ n < 2 ^ (k + 1))
Slot(x) == MinI(x, LUTN - 1)

CInit(c) == [v |-> c.vinit, ex |-> TRUE, on |-> FALSE, pg |-> TRUE, cnt |-> -1, drain |-> c.drain,
             out |-> c.vout, res |-> 0]                                    \* cnt -1: first evaluation is due
EnThr(c) == MaxI(c.dven, c.ven)
\* bounds of the intermediate voltage in half micro-volts
Lo2(s) == IF s.ex THEN 2 * s.v ELSE MaxI(0, 2 * s.v - 1)
Hi2(s) == IF s.ex THEN 2 * s.v ELSE 2 * s.v + 1

(* input stage *)
VAfterDiode(c, v) == MinI(IF v > c.vdrop THEN v - c.vdrop ELSE 0, c.vinmax)
IIn(c, i) == MinI(MaxI(i, 0), c.iinmax)
EtaInp(c, v, i) == c.lutin[Slot(v \div (2 ^ c.lutv)) + 1][Slot(Log2(i \div (2 ^ c.luti))) + 1]
RDrop(c, i) == BShr22(BMul(BInt(i), c.r22))
\* admissible (whole) voltages at which the input is used, all within 1 uV of the truth
VUse(c, s, v, i) ==
  LET v1 == VAfterDiode(c, v)  d == RDrop(c, i)  lossless == BMul(BInt(i), c.r22) = BZero
      reach == Lo2(s) <= 2 * v1   \* input may reach the storage
      miss == Hi2(s) > 2 * v1
  IN  (IF reach THEN {MaxI(s.v, v1 - d)} ELSE {})
      \union (IF miss THEN IF ~lossless THEN {s.v} ELSE IF c.fb THEN {v1} ELSE {0} ELSE {})
InpOk(c, s, v0, i0, pin) ==
  LET v == MaxI(v0, 0)  i == IIn(c, i0)  v1 == VAfterDiode(c, v)
      at(u, tol) == BNear(pin, BMul(BInt(u), BInt(i)), tol)
  IN  IF c.boost
      THEN LET u == IF v1 < c.vboost THEN 0 ELSE v1 IN
           BNear(BMul(pin, BInt(256)), BMul(BMul(BInt(u), BInt(i)), BInt(EtaInp(c, u, i))), BInt(256))
      ELSE IF c.storage THEN \E u \in VUse(c, s, v, i) : at(u, BInt(IF u = 0 THEN 0 ELSE i + 1))
      ELSE pin = BZero
\* without storage and boost the intermediate node follows the input
VAfterInp(c, s, v0) == IF c.boost \/ c.storage THEN s ELSE [s EXCEPT !.v = VAfterDiode(c, MaxI(v0, 0)), !.ex = TRUE]
\* voltage requested from the harvester (feedback)
ReqOk(c, s, i0, req) ==
  IF c.boost \/ ~c.storage \/ ~c.fb THEN TRUE
  ELSE LET d == RDrop(c, IIn(c, i0)) IN IF d >= 1000000000 THEN req >= d ELSE AbsI(req - (s.v + d + c.vdrop)) <= 1

(* output stage *)
RawMax == 262143
ResMax == 60000
\* adc-reading to nA, noise below zero is collected and subtracted from later readings
IOut(c, s, raw0) ==
  LET raw == MinI(MaxI(raw0, 0), RawMax)  i == raw * c.adcg + c.adco IN
  IF c.adco >= 0 THEN [i |-> i, res |-> s.res]
  ELSE IF i > s.res THEN [i |-> i - s.res, res |-> 0]
  ELSE [i |-> 0, res |-> MinI(s.res - i, ResMax)]
EtaOut(c, i) == c.lutout[Slot(Log2(MaxI(i, 0) \div (2 ^ c.luto))) + 1]
DrainTick(s) == [s EXCEPT !.drain = MaxI(@ - 1, 0)]
OutOk(c, s, raw, pout) ==
  LET i == IOut(c, s, raw).i
      etas == IF c.buck THEN {EtaOut(c, MaxI(i - 1, 0)), EtaOut(c, i), EtaOut(c, i + 1)} ELSE {16}
  IN  IF s.drain > 0 THEN pout = BZero
      ELSE \E e \in etas :
             BNear(BMul(pout, BInt(16)),
                   BAdd(BMul(BMul(BInt(s.out), BInt(i)), BInt(e)), BMul(BMul(BInt(s.v), BInt(c.leak)), BInt(16))),
                   BAdd(BMul(BInt(i), BInt(2 * e)), BMul(BInt(c.leak), BInt(16))))
               
AfterOut(c, s, raw) == DrainTick([s EXCEPT !.res = IOut(c, s, raw).res])

(* storage *)
Shift28 == BInt(268435456)
\* q * vp2 * 2^28 <= 4 * d * k, q possibly negative (then true)
Leq(q, vp2, dk4) == q <= 0 \/ BLe(BMul(BMul(BInt(q), BInt(vp2)), Shift28), dk4)
Geq(q, vp2, dk4) == q >= 0 /\ BLe(dk4, BMul(BMul(BInt(q), BInt(vp2)), Shift28))
CapOk(c, s, pin, pout, new) ==
  LET lo2 == Lo2(s)  hi2 == Hi2(s)
      up == BLe(pout, pin)
      d == IF up THEN BSub(pin, pout) ELSE BSub(pout, pin)
      four == BMul(c.k28, BInt(4))
      dMax == BMul(BAdd(d, BInt(1)), four)
      dMin == IF d = BZero THEN BZero ELSE BMul(BSub(d, BInt(1)), four)
      pl == MaxI(2, lo2)  ph == MaxI(2, hi2)
      \* unclamped result can be <= new + 1/2   resp. >= new - 1/2
      atMost == IF up THEN Geq(2 * new + 1 - lo2, ph, dMin) \/ (lo2 <= 2 * new + 1 /\ dMin = BZero)
                ELSE Leq(lo2 - 2 * new - 1, pl, dMax)
      atLeast == IF up THEN Leq(2 * new - 1 - hi2, pl, dMax)
                 ELSE Geq(hi2 - 2 * new + 1, ph, dMin) \/ (hi2 >= 2 * new - 1 /\ dMin = BZero)
  IN  IF ~c.storage THEN LET u == MaxI(1, MinI(s.v, c.vmax)) IN IF s.ex THEN new = u ELSE AbsI(new - u) <= 1 /\ new <= MaxI(1, c.vmax) /\ new >= 1
      ELSE new >= 1 /\ new <= MaxI(1, c.vmax) /\ (new >= c.vmax \/ atMost) /\ (new = 1 \/ atLeast)
\* exact only when nothing was added or the upper limit was certainly reached
Sat(c, s, pin, pout) ==
  IF ~c.storage THEN Lo2(s) >= 2 * c.vmax
  ELSE BLe(pout, pin) /\ Lo2(s) <= 2 * c.vmax /\
       LET d == BSub(pin, pout) IN
       BLt(BZero, d) /\ Leq(2 * c.vmax - Lo2(s), MaxI(2, Hi2(s)), BMul(BMul(BSub(d, BInt(1)), c.k28), BInt(4)))
AfterCap(c, s, pin, pout, new) ==
  [s EXCEPT !.v = new, !.ex = (new = s.v /\ s.ex /\ ~c.storage) \/ (new >= c.vmax /\ Sat(c, s, pin, pout))]

(* switching of output *)
CanGe(s, t) == Hi2(s) >= 2 * t
CanLt(s, t) == Lo2(s) < 2 * t
CanLe(s, t) == Lo2(s) <= 2 * t
CanGt(s, t) == Hi2(s) > 2 * t
Due(c, s) == s.cnt = -1 \/ s.cnt + 1 >= c.ncheck
Switch(c, s) ==   \* successors regarding enable-hysteresis
  IF ~Due(c, s) THEN {[s EXCEPT !.cnt = @ + 1]}
  ELSE LET z == [s EXCEPT !.cnt = 0] IN
       IF s.on THEN (IF CanLt(s, c.vdis) THEN {[z EXCEPT !.on = FALSE]} ELSE {}) \union (IF CanGe(s, c.vdis) THEN {z} ELSE {})
       ELSE (IF CanGe(s, EnThr(c)) THEN {[z EXCEPT !.on = TRUE, !.v = @ - c.dven]} ELSE {}) \union (IF CanLt(s, EnThr(c)) THEN {z} ELSE {})
Good(c, s, n) ==  \* power-good regards the voltage before the drop of enabling
  IF ~(Due(c, s) \/ c.immediate) THEN {n}
  ELSE IF s.pg THEN (IF CanLe(s, c.vpgdis) THEN {[n EXCEPT !.pg = FALSE]} ELSE {}) \union (IF CanGt(s, c.vpgdis) THEN {n} ELSE {})
  ELSE (IF CanGe(s, c.vpgen) THEN {[n EXCEPT !.pg = n.on]} ELSE {}) \union (IF CanLt(s, c.vpgen) THEN {n} ELSE {})
Supplied(s) == s.on \/ s.drain > 0
Drive(c, s) ==    \* voltage offered to the target
  IF ~Supplied(s) THEN 0
  ELSE IF c.buck /\ s.v > c.vout + c.bdrop THEN c.vout
  ELSE MaxI(0, s.v - c.bdrop)
States(c, s) == {[g EXCEPT !.out = Drive(c, g)] : g \in UNION {Good(c, s, n) : n \in Switch(c, s)}}
\* register of the dac (gain and offset in uV), known within half a step (+- 1 uV)
DacOk(c, s, raw) ==
  IF ~Supplied(s) THEN raw = 0
  ELSE LET err2 == 2 * (raw * c.dacg + c.daco - s.out)  tol2 == c.dacg + (IF s.ex \/ (c.buck /\ s.out = c.vout) THEN 0 ELSE 2)
       IN  raw >= 0 /\ raw <= 65535 /\ (raw = 65535 \/ err2 >= -tol2) /\ (raw = 0 \/ err2 <= tol2)
SkipOk(c, s, skip) == skip = (s.out < c.vlog) \/ (~s.ex /\ AbsI(s.out - c.vlog) <= 1)
=============================================================================
