-------------------------------- MODULE Calib --------------------------------
(* Calibration: conversion raw <-> physical, and the slots of a cape on every  *)
(* route. A pair is [e, g, o]: gain = g * 2^-e, offset = o * 2^-e (g >= 1).    *)
(* Physical values are integers in the same unit 2^-e (exact in doubles).      *)
EXTENDS Integers, Sequences, Big
AbsI(x) == IF x < 0 THEN -x ELSE x
MaxI(a, b) == IF a > b THEN a ELSE b
Rhe(n, d) == LET q == n \div d  r == n % d IN IF 2 * r < d THEN q ELSE IF 2 * r > d THEN q + 1 ELSE IF q % 2 = 0 THEN q ELSE q + 1
\* signed big numbers [neg, b]
SBig(x) == [neg |-> x < 0, b |-> BInt(AbsI(x))]
SAdd(x, y) ==
  IF x.neg = y.neg THEN [neg |-> x.neg, b |-> BAdd(x.b, y.b)]
  ELSE IF BLe(y.b, x.b) THEN [neg |-> IF x.b = y.b THEN FALSE ELSE x.neg, b |-> BSub(x.b, y.b)]
  ELSE [neg |-> y.neg, b |-> BSub(y.b, x.b)]
SZero == [neg |-> FALSE, b |-> BZero]
SNorm(x) == IF x.b = BZero THEN SZero ELSE x
\* raw is Big (any u32 and beyond)
ToSi(p, raw, allowNeg) ==
  LET v == SAdd([neg |-> FALSE, b |-> BMul(raw, BInt(p.g))], SBig(p.o)) IN IF v.neg /\ ~allowNeg THEN SZero ELSE SNorm(v)
\* physical value as integer si (unit 2^-e)
ToRaw(p, si) == MaxI(0, IF si >= p.o THEN Rhe(si - p.o, p.g) ELSE 0)

(* ------------------------------------------------------------- routes *)
Slots == <<"dac_V_Hrv", "dac_V_Sim", "adc_V_Sense", "adc_C_Hrv", "dac_V_A", "dac_V_B", "adc_C_A", "adc_C_B">>
HrvSlots == {"dac_V_Hrv", "dac_V_Sim", "adc_V_Sense", "adc_C_Hrv"}
Encode(cape) == [k \in 1 .. 16 |-> LET p == cape[Slots[(k + 1) \div 2]] IN IF k % 2 = 1 THEN p.g ELSE p.o]
Decode(w) == [s \in {Slots[k] : k \in 1 .. 8} |-> LET k == CHOOSE k \in 1 .. 8 : Slots[k] = s IN [g |-> w[2 * k - 1], o |-> w[2 * k]]]
Series(cape, dev, portA) ==
  IF dev = "harvester" THEN [voltage |-> cape.adc_V_Sense, current |-> cape.adc_C_Hrv]
  ELSE IF portA THEN [voltage |-> cape.dac_V_A, current |-> cape.adc_C_A]
  ELSE [voltage |-> cape.dac_V_B, current |-> cape.adc_C_B]

(* ----------------------------------------------- registers for the driver *)
Pow2(e) == IF e <= 30 THEN BInt(2 ^ e) ELSE BMul(BInt(1073741824), BInt(2 ^ (e - 30)))
\* n = round(x * num / 2^e), |n * 2^e - x * num| at most half of 2^e (and float error)
ScaledOk(n, x, num, e) == n.neg = (x < 0 /\ n.b # BZero) /\ BNear(BMul(n.b, Pow2(e)), BMul(BInt(AbsI(x)), num), BAdd(Pow2(e - 1), BInt(1000)))
\* exact value certainly too large for the container / certainly fits
TooBig(x, num, e, lim) == BLe(BMul(lim, Pow2(e)), BMul(BInt(AbsI(x)), num))
Fits(x, num, e, lim) == BLt(BMul(BInt(AbsI(x)), num), BMul(BSub(lim, BInt(1)), Pow2(e)))
N1 == BMul(BInt(1000000000), BInt(256))      \* nA, shifted by 8
N2 == BInt(1000000000)
N3 == BMul(BInt(1000000), BInt(256))
N4 == BInt(1000000)
U32 == <<0, 0, 256, 0, 0, 0, 0, 0>>
I31 == <<0, 0, 128, 0, 0, 0, 0, 0>>
DacOk(n, p) ==      \* 2^20 / (1e6 g 2^-e)
  LET full == BMul(Pow2(20), Pow2(p.e))  d == BMul(N4, BInt(p.g)) IN
  ~n.neg /\ BNear(BMul(n.b, d), full, BAdd(BMul(BInt(500000), BInt(p.g)), BInt(1000)))
DacFits(p) == BLt(BMul(Pow2(20), Pow2(p.e)), BMul(BSub(U32, BInt(1)), BMul(N4, BInt(p.g))))
DacTooBig(p) == BLe(BMul(U32, BMul(N4, BInt(p.g))), BMul(Pow2(20), Pow2(p.e)))
Regs(adcC, adcV, dac, n) ==     \* adcV = FALSE: unity
  LET C(name, b) == IF b THEN {} ELSE {name} IN
  C("adc_current_gain", ScaledOk(n.adc_current_gain, adcC.g, N1, adcC.e)) \union C("adc_current_offset", ScaledOk(n.adc_current_offset, adcC.o, N2, adcC.e))
  \union C("adc_voltage_gain", IF adcV.g = 0 THEN n.adc_voltage_gain = [neg |-> FALSE, b |-> N3] ELSE ScaledOk(n.adc_voltage_gain, adcV.g, N3, adcV.e))
  \union C("adc_voltage_offset", ScaledOk(n.adc_voltage_offset, adcV.o, N4, adcV.e))
  \union C("dac_voltage_gain", DacOk(n.dac_voltage_gain, dac)) \union C("dac_voltage_offset", ScaledOk(n.dac_voltage_offset, dac.o, N4, dac.e))
AllFit(adcC, adcV, dac) == Fits(adcC.g, N1, adcC.e, U32) /\ Fits(adcC.o, N2, adcC.e, I31) /\ (adcV.g = 0 \/ Fits(adcV.g, N3, adcV.e, U32)) /\ Fits(adcV.o, N4, adcV.e, I31)
                           /\ DacFits(dac) /\ Fits(dac.o, N4, dac.e, I31)
\* the lower limit of signed containers is -2^31 itself, hence the certain overflow needs a margin
AnyTooBig(adcC, adcV, dac) == TooBig(adcC.g, N1, adcC.e, U32) \/ TooBig(adcC.o, N2, adcC.e, BAdd(I31, BInt(1))) \/ (adcV.g > 0 /\ TooBig(adcV.g, N3, adcV.e, U32)) \/ TooBig(adcV.o, N4, adcV.e, BAdd(I31, BInt(1)))
                              \/ DacTooBig(dac) \/ TooBig(dac.o, N4, dac.e, BAdd(I31, BInt(1)))
(* ------------------------------------------------------ hardware constants *)
\* raw code of a current in nA / voltage in uV
HwMax(kind) == IF kind = "dac_V" THEN 65535 ELSE 262143
HwNum(kind) == IF kind = "adc_C" THEN 49152 ELSE IF kind = "adc_V" THEN 512 ELSE 131072
HwDen(kind) == IF kind = "adc_C" THEN 10000000 ELSE IF kind = "adc_V" THEN 10000 ELSE 10000000
HwOk(kind, x, raw) ==
  LET top == BMul(BInt(HwMax(kind)), BInt(HwDen(kind)))  want == BMul(BInt(MaxI(x, 0)), BInt(HwNum(kind))) IN
  raw >= 0 /\ raw <= HwMax(kind) /\ BNear(BMul(BInt(raw), BInt(HwDen(kind))), BMin(want, top), BInt(HwDen(kind) \div 2 + 1))
=============================================================================
