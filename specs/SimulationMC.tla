----------------------------- MODULE SimulationMC -----------------------------
(* Block-wise processing with a state that is carried over, a load that        *)
(* answers with a delay of one sample, and energy summed per block. The model  *)
(* and the load are arbitrary (small) machines, chosen nondeterministically.   *)
EXTENDS Simulation, TLC, Json
CONSTANTS N, S, MaxBlk
VARIABLES mach, load, inp, blk, pos, buf, st, li, out, esum, done
vars == <<mach, load, inp, blk, pos, buf, st, li, out, esum, done>>
States == 0 .. S - 1
Vals == 0 .. 1
\* machine: (state, input, load) -> next state; answer is the next state. load: answer -> current
Machines == [States \X Vals \X Vals -> States]
Init == /\ mach \in Machines /\ load \in [States -> Vals] /\ inp \in UNION {[1 .. k -> Vals] : k \in 0 .. N} /\ blk \in 1 .. MaxBlk
        /\ pos = 0 /\ buf = <<>> /\ st = 0 /\ li = 0 /\ out = <<>> /\ esum = 0 /\ done = FALSE
Fetch == /\ ~done /\ buf = <<>> /\ pos + blk <= Len(inp)
         /\ buf' = SubSeq(inp, pos + 1, pos + blk) /\ UNCHANGED <<mach, load, inp, blk, pos, st, li, out, esum, done>>
Step == /\ buf # <<>>
        /\ LET n == mach[<<st, Head(buf), li>>] IN
             st' = n /\ li' = load[n] /\ out' = Append(out, [v |-> n, i |-> load[n]]) /\ esum' = esum + n * load[n]
        /\ buf' = Tail(buf) /\ pos' = pos + 1 /\ UNCHANGED <<mach, load, inp, blk, done>>
Finish == /\ ~done /\ buf = <<>> /\ pos + blk > Len(inp) /\ done' = TRUE /\ UNCHANGED <<mach, load, inp, blk, pos, buf, st, li, out, esum>>
Next == Fetch \/ Step \/ Finish
Spec == Init /\ [][Next]_vars
\* ---- stepping the machine without blocks
RECURSIVE Fold(_)
Fold(k) == IF k = 0 THEN [st |-> 0, li |-> 0, out |-> <<>>, e |-> 0]
           ELSE LET p == Fold(k - 1)
                    n == mach[<<p.st, inp[k], p.li>>] IN
                [st |-> n, li |-> load[n], out |-> Append(p.out, [v |-> n, i |-> load[n]]), e |-> p.e + n * load[n]]
SameAsStepping == LET f == Fold(pos) IN out = f.out /\ esum = f.e /\ st = f.st
Complete == done => Len(out) = Rows(Len(inp), blk)
\* ---- runs for the real code: number of samples and size of blocks (in rows), load and source
Kinds == {"src", "hrv"}
GInit == /\ \E b \in {1, 3, 7} : \E full \in 0 .. 4 : \E rest \in {r \in {0, 1, b - 1} : r >= 0 /\ r < b} : \E k \in Kinds : \E mon \in BOOLEAN : \E t \in {"res", "diode", "cur", "pow"} :
              /\ (k = "hrv" => t = "res" /\ ~mon)
              /\ inp = <<b, full * b + rest, k, mon, t>> /\ PrintT("GEN|" \o ToJson([blk |-> b, n |-> full * b + rest, kind |-> k, mon |-> mon, target |-> t]))
         /\ mach = 0 /\ load = 0 /\ blk = 1 /\ pos = 0 /\ buf = <<>> /\ st = 0 /\ li = 0 /\ out = <<>> /\ esum = 0 /\ done = TRUE
GSpec == GInit /\ [][FALSE]_vars
=============================================================================
