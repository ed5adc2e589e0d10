------------------------------- MODULE Params -------------------------------
(* Parameters of the real-time units as function of the configuration.         *)
(* Units: voltages uV, harvester currents nA, times us, capacities nF, ratios  *)
(* as given denominators.                                                       *)
EXTENDS Integers, Sequences, Big
MaxI(a, b) == IF a > b THEN a ELSE b
MinI(a, b) == IF a < b THEN a ELSE b
AbsI(x) == IF x < 0 THEN -x ELSE x
\* round half to even of n / d (n >= 0)
Rhe(n, d) == LET q == n \div d  r == n % d IN IF 2 * r < d THEN q ELSE IF 2 * r > d THEN q + 1 ELSE IF q % 2 = 0 THEN q ELSE q + 1

(* ---- harvester: h = [alg, samples, v, vmin, vmax, climit, step (-1: none), set1024, interval, duration, rising, linear, wait] *)
AlgNum == [neutral |-> 1, isc_voc |-> 8, ivcurve |-> 16, cv |-> 256, mppt_voc |-> 4096, mppt_po |-> 8192, mppt_opt |-> 16384]
Yields(alg) == IF alg \in {"isc_voc", "ivcurve"} THEN alg ELSE "ivsample"
StepGiven(h) == h.step >= 0
\* smallest admissible step is 1 mV, derived from the range when not given
StepOk(h) == IF StepGiven(h) THEN h.step >= 1000 ELSE AbsI(h.vmax - h.vmin) >= 1000 * (h.samples - 1)
HrvAdmissible(h) ==
  /\ h.alg \in DOMAIN AlgNum
  /\ h.samples \in 8 .. 2000 /\ h.wait \in 0 .. 100
  /\ \A x \in {h.v, h.vmin, h.vmax} : x \in 0 .. 5000000
  /\ h.vmin <= h.v /\ h.v <= h.vmax
  /\ h.climit \in 1000 .. 50000000 /\ h.set1024 \in 0 .. 1024
  /\ h.interval \in 10 .. 1000000000 /\ h.duration \in 10 .. 1000000000
  /\ StepOk(h) /\ h.step <= 1000000000
\* request r = [emu, dtype ("none" possible), window (-1), step (-1)]
RequestOk(h, r) ==
  IF r.emu THEN /\ r.dtype \in {"ivsample", "ivcurve"}
                /\ (r.dtype = "ivcurve" => r.step >= 0 /\ r.window >= 0)
                /\ Yields(h.alg) = "ivsample"
  ELSE AlgNum[h.alg] >= AlgNum["isc_voc"]
TimeMin(h, r) == (1 + h.wait) * 10 * (IF r.emu THEN h.samples ELSE 1)
IntervalUs(h, r) == MinI(MaxI(h.interval, TimeMin(h, r)), 1000000000)
DurationUs(h, r) == MinI(MaxI(h.duration, TimeMin(h, r)), IntervalUs(h, r))
Window(h, r) ==
  IF r.window >= 0 THEN r.window
  ELSE IF ~r.emu THEN h.samples
  ELSE IF r.dtype = "ivcurve" THEN h.samples * (1 + h.wait) ELSE 0
B01(b) == IF b THEN 1 ELSE 0
HrvExact(h, r) ==
  [algorithm |-> AlgNum[h.alg], hrv_mode |-> B01(r.emu) + 2 * B01(h.rising) + 4 * B01(h.linear), window_size |-> Window(h, r),
   voltage_uV |-> h.v, voltage_min_uV |-> h.vmin, voltage_max_uV |-> h.vmax, current_limit_nA |-> h.climit,
   setpoint_n8 |-> MinI(255, Rhe(h.set1024, 4)), interval_n |-> Rhe(IntervalUs(h, r), 10), duration_n |-> Rhe(DurationUs(h, r), 10), wait_cycles_n |-> h.wait]
HrvStepOk(h, r, reg) ==
  IF r.step >= 0 THEN reg = r.step
  ELSE IF StepGiven(h) THEN reg = h.step
  ELSE 2 * AbsI(reg * (h.samples - 1) - (h.vmax - h.vmin)) <= h.samples - 1

(* ---- virtual source: s (see driver), registers in Big where they exceed 2^31 *)
Boost(s) == s.boost /\ s.cstore > 0
Feedback(s, dtype) == s.feedback /\ s.cstore > 0 /\ ~Boost(s) /\ dtype = "ivcurve"
Mode(s, dtype, log) == B01(s.cstore > 0) + 2 * B01(Boost(s)) + 4 * B01(s.buck) + 8 * B01(log) + 16 * B01(Feedback(s, dtype))
Sq(x) == BMul(BInt(x), BInt(x))
\* voltage drop of the storage when an output capacitor gets charged to vout, starting at vold
DropOk(s, vold, x) ==
  IF s.cstore = 0 \/ s.cout = 0 THEN x = 0
  ELSE LET have == BMul(Sq(vold), BInt(s.cstore))  need == BMul(Sq(s.vout), BInt(s.cout)) IN
       IF BLt(have, need) THEN x = 0
       ELSE LET rest == BSub(have, need)
                side(y) == BMul(Sq(MaxI(y, 0)), BInt(s.cstore))
            IN  \/ x >= 0 /\ x <= vold /\ BLe(side(vold - x - 1), rest) /\ BLe(rest, side(vold - x + 1))
                \/ rest = BZero /\ x \in {0, vold}
VPre(s) == s.vout + s.bdrop
ThresholdsOk(s, r) ==
  IF ~s.buck THEN r.ven = s.ven /\ r.vdis = s.vdis /\ DropOk(s, s.ven, r.dven)
  ELSE /\ r.vdis = MaxI(s.vdis, VPre(s))
       /\ IF s.ven > VPre(s) THEN r.ven = s.ven /\ DropOk(s, s.ven, r.dven)
          ELSE AbsI(r.ven - (VPre(s) + r.dven)) <= 1 /\ DropOk(s, s.vout, r.dven)
CapConstOk(s, k) ==   \* floor(2^28 * 1000 / (C[uF] * 1e5))
  LET c == BInt(MaxI(s.cstore, 1))  full == BMul(BInt(268435456), BInt(10)) IN
  BLe(BMul(k, c), BAdd(full, c)) /\ BLt(full, BMul(BAdd(k, BInt(2)), c))
ResistOk(s, n) ==     \* round(mOhm * 2^22 / 1e6), resistance in 1/8 mOhm
  LET a == BMul(BInt(n), BInt(8000000))  b == BMul(BInt(s.r8), BInt(4194304)) IN BNear(a, b, BInt(4000001))
Near10(us, n) == n = Rhe(us, 10)
LutIn(k) == MinI(255, Rhe(k, 4))                     \* k of 1024
LutOut(k) == IF k = 0 THEN 16384 ELSE MinI(16384, Rhe(16 * 4096, k))   \* k of 4096
SrcBad(s, dtype, log, r) ==
  LET C(name, b) == IF b THEN {} ELSE {name} IN
  C("mode", r.mode = Mode(s, dtype, log)) \union C("startup-drain", Near10(s.drain, r.drain)) \union C("check-interval", Near10(s.check, r.check))
  \union C("levels", r.vinmax = s.vinmax /\ r.vinit = s.vinit /\ r.vpgen = s.vpgen /\ r.vpgdis = s.vpgdis /\ r.vboost = s.vboost
                     /\ r.vmax = s.vmax /\ r.vout = s.vout /\ r.bdrop = s.bdrop)
  \union C("wide-levels", r.iinmax = s.iinmax /\ r.vdrop = s.vdrop /\ r.leak = s.leak /\ r.vlog = s.vlog)
  \union C("power-good-mode", r.immediate = B01(s.immediate))
  \union C("thresholds", ThresholdsOk(s, r)) \union C("capacity", CapConstOk(s, r.k28)) \union C("resistance", ResistOk(s, r.r22))
  \union C("lut-scales", r.lutv = s.lutv /\ r.luti = s.luti - 1 /\ r.luto = s.luto - 1)
  \union C("lut-in", r.lutin = [x \in 1 .. 12 |-> [y \in 1 .. 12 |-> LutIn(s.lutin[x][y])]])
  \union C("lut-out", r.lutout = [x \in 1 .. 12 |-> LutOut(s.lutout[x])])
=============================================================================
