-------------------------------- MODULE Uart --------------------------------
(* UART line and decoder. Time is counted in units, U units per bit ("tick").  *)
(* Frame: [t: start of its start bit, s: symbol]; line idles HIGH; frame is    *)
(* LOW start bit, n data bits LSB first, HIGH stop. A run is <<level, begin>>. *)
EXTENDS Integers, Sequences
U == 20
RECURSIVE P2(_)
P2(k) == IF k = 0 THEN 1 ELSE 2 * P2(k - 1)
BitOf(s, k) == IF k > 24 THEN 0 ELSE (s \div P2(k)) % 2
\* edges inside one frame: start bit falls, then every change between bits, stop rises
Level(f, n, k) == IF k = 0 THEN 0 ELSE IF k > n THEN 1 ELSE BitOf(f.s, k - 1)
RECURSIVE Edges(_, _, _, _)
Edges(f, n, k, prev) ==
  IF k > n + 1 THEN <<>>
  ELSE (IF Level(f, n, k) # prev THEN <<<<Level(f, n, k), f.t + k * U>>>> ELSE <<>>) \o Edges(f, n, k + 1, Level(f, n, k))
RECURSIVE WaveFrom(_, _, _)
WaveFrom(fs, n, i) == IF i > Len(fs) THEN <<>> ELSE Edges(fs[i], n, 0, 1) \o WaveFrom(fs, n, i + 1)
\* complete waveform as recorded: initial idle state at time t0, then all level changes
Wave(t0, fs, n) == <<<<1, t0>>>> \o WaveFrom(fs, n, 1)

\* receiver: consumes runs <<level, begin, duration>> (duration 0: not limited)
RxInit == [busy |-> FALSE, pos |-> 0, sym |-> 0, t |-> 0, out |-> <<>>]
Bits(dur) == (dur + U \div 2) \div U
Ones(k) == P2(k) - 1
Min2(a, b) == IF a < b THEN a ELSE b
RxStep(r, lev, begin, dur, n) ==
  LET fresh == ~r.busy /\ lev = 0
      r1 == IF fresh THEN [r EXCEPT !.busy = TRUE, !.pos = 0, !.sym = 0, !.t = begin] ELSE r
      left == n - r1.pos
      cnt == IF dur = 0 THEN left ELSE Min2(IF fresh THEN Bits(dur) - 1 ELSE Bits(dur), left)
      sym == IF lev = 1 /\ cnt > 0 THEN r1.sym + Ones(cnt) * P2(r1.pos) ELSE r1.sym
      pos == r1.pos + cnt
  IN  IF ~r1.busy THEN r1
      ELSE IF pos >= n THEN [r1 EXCEPT !.busy = FALSE, !.pos = 0, !.sym = 0, !.out = Append(@, [t |-> r1.t, s |-> sym])]
      ELSE [r1 EXCEPT !.pos = pos, !.sym = sym]
RECURSIVE RxRun(_, _, _, _)
RxRun(r, w, i, n) ==
  IF i > Len(w) THEN r
  ELSE RxRun(RxStep(r, w[i][1], w[i][2], IF i = Len(w) THEN 0 ELSE w[i + 1][2] - w[i][2], n), w, i + 1, n)
Decode(w, n) == RxRun(RxInit, w, 1, n).out

\* lines: cut after LF, CR or CR-LF; rest without ending is the last line
CR == 13
LF == 10
RECURSIVE Cut(_, _, _, _, _)
Cut(fs, i, cur, cr, lf) ==
  IF i > Len(fs) THEN (IF cur = <<>> THEN <<>> ELSE <<cur>>)
  ELSE LET s == fs[i].s  c2 == Append(cur, fs[i])
           ends == s = lf \/ (s = cr /\ (i = Len(fs) \/ fs[i + 1].s # lf))
       IN  IF ends THEN <<c2>> \o Cut(fs, i + 1, <<>>, cr, lf) ELSE Cut(fs, i + 1, c2, cr, lf)
Lines(fs, cr, lf) == Cut(fs, 1, <<>>, cr, lf)
=============================================================================
