------------------------------- MODULE GpioMC -------------------------------
(* Recording (entries arrive, times never decrease) with an extractor that     *)
(* only remembers the last level per pin: it must deliver the waveform, and    *)
(* replaying the waveform must reproduce each pin's level at every entry.      *)
EXTENDS Gpio, TLC
CONSTANTS MaxLen, NPins
VARIABLES tr, wf, lev
vars == <<tr, wf, lev>>
Pins == 0 .. NPins - 1
Init == tr = <<>> /\ wf = [p \in Pins |-> <<>>] /\ lev = [p \in Pins |-> 2]
Rec(dt, w) ==
  LET t == IF tr = <<>> THEN dt ELSE tr[Len(tr)][1] + dt IN
  /\ Len(tr) < MaxLen
  /\ tr' = Append(tr, <<t, w>>)
  /\ wf' = [p \in Pins |-> IF Bit(w, p) # lev[p] THEN Append(wf[p], <<t, Bit(w, p)>>) ELSE wf[p]]
  /\ lev' = [p \in Pins |-> Bit(w, p)]
Next == \E dt \in 0 .. 1, w \in 0 .. Pow2(NPins) - 1 : Rec(dt, w)
Spec == Init /\ [][Next]_vars
Exact == \A p \in Pins : wf[p] = Waveform(tr, p)
Alternates == \A p \in Pins : \A i \in 1 .. Len(wf[p]) - 1 : wf[p][i][2] # wf[p][i + 1][2]
\* replay: number of waveform entries among the first k recorded entries tells the level after entry k
Kept(p, k) == Cardinality({i \in 1 .. k : Keeps(tr, p, i)})
Replay == \A p \in Pins : \A k \in 1 .. Len(tr) : wf[p][Kept(p, k)][2] = Bit(tr[k][2], p)
Ordered == \A p \in Pins : \A i \in 1 .. Len(wf[p]) - 1 : wf[p][i][1] <= wf[p][i + 1][1]
Independent == [][\A p \in Pins : lev'[p] = lev[p] => wf'[p] = wf[p]]_vars
=============================================================================
