-------------------------------- MODULE Gpio --------------------------------
(* A gpio trace is a sequence of <<t, w>>: at time t the pins show word w.     *)
(* The waveform of pin p keeps the first entry and every entry at which the    *)
(* pin's level differs from the entry before.                                  *)
EXTENDS Integers, Sequences, FiniteSets
RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)
Bit(w, p) == (w \div Pow2(p)) % 2
Keeps(tr, p, i) == i = 1 \/ Bit(tr[i][2], p) # Bit(tr[i - 1][2], p)
RECURSIVE Wave(_, _, _)
Wave(tr, p, i) == IF i > Len(tr) THEN <<>>
                  ELSE (IF Keeps(tr, p, i) THEN <<<<tr[i][1], Bit(tr[i][2], p)>>>> ELSE <<>>) \o Wave(tr, p, i + 1)
Waveform(tr, p) == Wave(tr, p, 1)
=============================================================================
