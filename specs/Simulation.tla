------------------------------ MODULE Simulation ------------------------------
(* A recording is run through a model of a harvester or virtual source: the   *)
(* model answers one sample after the other, answers form the rows of the     *)
(* output. The virtual source is loaded by a target whose current is fed back *)
(* with the next sample. Voltages in uV, currents in nA.                       *)
(* cfg: blk (samples per block), gain / offset of the input (whole uV / nA),   *)
(*      out [lov, lsbv, loi, lsbi] smallest value and step of the output       *)
EXTENDS Integers, Sequences, FiniteSets, Big
MaxI(a, b) == IF a > b THEN a ELSE b
AbsI(x) == IF x < 0 THEN -x ELSE x
\* only complete blocks are processed
Rows(n, blk) == (n \div blk) * blk
InV(c, raw) == raw * c.gv + c.ov
InI(c, raw) == raw * c.gi + c.oi
\* a value is stored with the resolution of the output
Stored(x, lo, lsb, got) == LET m == MaxI(x, lo) IN m - lsb <= got /\ got <= m + lsb
\* energy of one row in fW * sample, and by how much rounding of both factors can alter it
RowEnergy(v, i) == BMul(BInt(MaxI(v, 0)), BInt(MaxI(i, 0)))
RowSlack(v, i) == BAdd(BInt(MaxI(v, 0)), BInt(MaxI(i, 0) + 1))

(* ---- targets: current [nA] drawn at v [uV] *)
\* r in Ohm: i * r = v * 1000
Resistive(r, v, i) == BNear(BMul(BInt(i), BInt(r)), BMul(BInt(v), BInt(1000)), BInt(r + 1000))
\* p in nW (= 10^6 fW): i * v = p; nothing is drawn without voltage
Power(p, v, i) == IF v <= 0 THEN i = 0 ELSE BNear(BMul(BInt(v), BInt(i)), BMul(BInt(p), BInt(1000000)), BAdd(BInt(v), BInt(1)))
\* 1024 * log2(x) of a whole number x >= 1
RECURSIVE Norm(_, _), Bits(_, _, _)
Norm(m, e) == IF m >= 32768 THEN Norm(m \div 2, e + 1) ELSE IF m < 16384 THEN Norm(m * 2, e - 1) ELSE <<m, e>>
Bits(m, k, acc) == IF k = 0 THEN acc ELSE LET q == (m * m) \div 16384 IN IF q >= 32768 THEN Bits(q \div 2, k - 1, 2 * acc + 1) ELSE Bits(q, k - 1, 2 * acc)
Log2(x) == LET n == Norm(x, 14) IN n[2] * 1024 + Bits(n[1], 10, 0)
\* Shockley: the voltage across the diode rises by a constant (44578 uV at 100 degC, ideality 2) each time the current (plus scale-current) doubles
Octave == 44578
Rise(x, y) == (Octave * (Log2(x) - Log2(y))) \div 1024
Shockley(r, v, i, a) ==
  LET vd == v - ((i \div 1000) * r + ((i % 1000) * r) \div 1000)
      lo == MaxI(i - 1, 0) + a.s IN
  /\ vd <= a.vf + Rise(i + 2 + a.s, a.i + a.s) + 2000
  /\ (lo >= 1 => vd >= a.vf + Rise(lo, a.i + a.s) - 2000)
\* diode in series with r: never more than the resistor alone, and the known point (vf + if * r, if)
Diode(r, v, i, anchor) == i >= 0 /\ BLe(BMul(BInt(i), BInt(r)), BAdd(BMul(BInt(v), BInt(1000)), BInt(r + 1000)))
                          /\ (v = anchor.v => AbsI(i - anchor.i) <= anchor.i \div 100 + 1)
                          /\ (v >= 0 => Shockley(r, v, i, anchor))
Draws(t, v, pg, i) ==
  CASE t.kind = "res" -> IF pg \/ ~t.ctrl THEN Resistive(t.r, v, i) ELSE i = 0
    [] t.kind = "diode" -> IF pg \/ ~t.ctrl THEN Diode(t.r, v, i, t.anchor) ELSE i = 0
    [] t.kind = "cur" -> i = (IF pg THEN t.act ELSE t.sleep)
    [] t.kind = "pow" -> Power(IF pg THEN t.act ELSE t.sleep, v, i)
    [] OTHER -> FALSE
=============================================================================
