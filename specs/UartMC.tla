------------------------------- MODULE UartMC -------------------------------
(* Sender and receiver composed: every sent frame sequence is decoded exactly; *)
(* a line splitter that only looks at one symbol at a time equals Lines.       *)
EXTENDS Uart, TLC
CONSTANTS N, MaxFrames, Cr, Lf
Gaps == {0, 7, U, (N + 3) * U}
VARIABLES fs, free, sp
vars == <<fs, free, sp>>
\* splitter: done lines, open line, pending CR
SpInit == [done |-> <<>>, cur |-> <<>>, pend |-> FALSE]
SpStep(x, f) ==
  LET a == IF x.pend /\ f.s # Lf THEN [done |-> Append(x.done, x.cur), cur |-> <<>>, pend |-> FALSE] ELSE x
      b == [a EXCEPT !.cur = Append(@, f)]
  IN  IF f.s = Lf THEN [done |-> Append(b.done, b.cur), cur |-> <<>>, pend |-> FALSE]
      ELSE [b EXCEPT !.pend = (f.s = Cr)]
SpOut(x) == IF x.cur = <<>> THEN x.done ELSE Append(x.done, x.cur)
Init == fs = <<>> /\ free = 3 * U /\ sp = SpInit
Send(s, gap, stop) ==
  /\ Len(fs) < MaxFrames
  /\ LET f == [t |-> free + gap, s |-> s] IN
     /\ fs' = Append(fs, f) /\ free' = f.t + (N + 1 + stop) * U /\ sp' = SpStep(sp, f)
Next == \E s \in 0 .. P2(N) - 1, gap \in Gaps, stop \in 1 .. 1 : Send(s, gap, stop)
Spec == Init /\ [][Next]_vars
W == Wave(0, fs, N)
RoundTrip(w) == Decode(w, N) = fs
\* one symbol sampled at the middle of each bit gives the same answer
RECURSIVE LevelAt(_, _, _)
LevelAt(w, x, i) == IF i = Len(w) \/ w[i + 1][2] > x THEN w[i][1] ELSE LevelAt(w, x, i + 1)
RECURSIVE Sampled(_, _, _)
Sampled(w, f, k) == IF k = N THEN 0 ELSE LevelAt(w, f.t + (k + 1) * U + U \div 2, 1) * P2(k) + Sampled(w, f, k + 1)
Sampling(w) == \A i \in DOMAIN fs : Sampled(w, fs[i], 0) = fs[i].s
Alternating(w) == \A i \in 1 .. Len(w) - 1 : w[i][1] # w[i + 1][1] /\ w[i][2] < w[i + 1][2]
RECURSIVE Flat(_, _)
Flat(ls, i) == IF i > Len(ls) THEN <<>> ELSE ls[i] \o Flat(ls, i + 1)
LinesKeepAll == Flat(Lines(fs, Cr, Lf), 1) = fs
LinesIncremental == SpOut(sp) = Lines(fs, Cr, Lf)
LinesShape ==
  LET ls == Lines(fs, Cr, Lf) IN
  \A i \in DOMAIN ls :
    /\ ls[i] # <<>>
    /\ \A j \in 1 .. Len(ls[i]) - 1 : ls[i][j].s # Lf /\ (ls[i][j].s = Cr => j = Len(ls[i]) - 1 /\ ls[i][j + 1].s = Lf)
    /\ (i < Len(ls) => ls[i][Len(ls[i])].s \in {Cr, Lf})
    /\ (ls[i][Len(ls[i])].s = Cr /\ i < Len(ls) => ls[i + 1][1].s # Lf)
Inv == LET w == W IN RoundTrip(w) /\ Sampling(w) /\ Alternating(w) /\ LinesKeepAll /\ LinesIncremental /\ LinesShape
=============================================================================
