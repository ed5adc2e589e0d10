------------------------------ MODULE Validity ------------------------------
(* What makes a recording valid, what makes its time base equidistant, and   *)
(* how the validate command judges a set of files.                           *)
EXTENDS Integers, Sequences, FiniteSets

Modes    == {"harvester", "emulator"}
Allowed(m) == IF m = "harvester" THEN {"ivsample", "ivcurve", "isc_voc"} ELSE {"ivsample"}

\* f: [data, mode, window, dtype, v, c, t]; mode/dtype "absent", window -99 = absent;
\* a column is "ok", "missing", "nogain", "nooffset" or "bare"
ColOk(x)   == x = "ok"
Broken(f)  == ~f.data \/ f.v = "missing" \/ f.c = "missing" \/ f.t = "missing"
Valid(f) ==
  /\ f.data
  /\ f.mode \in Modes
  /\ f.window # -99
  /\ f.dtype \in Allowed(f.mode)
  /\ ColOk(f.v) /\ ColOk(f.c) /\ ColOk(f.t)
  /\ (f.dtype = "ivcurve" => f.window >= 1)

\* time base: n rows nominally Step ns apart, jumps <<row, ns>> shift all rows from `row` on
Buf  == 10000
Step == 10000                        \* ns between samples
Nom  == Buf * Step
Tol  == Nom \div 20                  \* resolution of the check: half a us per sample
RECURSIVE SumJ(_, _, _)
SumJ(js, lo, hi) == IF js = <<>> THEN 0
                    ELSE (IF lo < js[1][1] /\ js[1][1] <= hi THEN js[1][2] ELSE 0) + SumJ(Tail(js), lo, hi)
NBuf(n) == (n + Buf - 1) \div Buf    \* number of buffer starts
\* distance between start of buffer k and k+1 deviates by the jumps in between
Dev(js, k) == SumJ(js, k * Buf, (k + 1) * Buf)
Equidistant(n, js) == \A k \in 0 .. NBuf(n) - 2 : Dev(js, k) \in (0 - Tol + 1) .. (Tol - 1)

ErrCount(levels, min) == Cardinality({i \in DOMAIN levels : levels[i] >= min})

\* validate command: files are [where |-> "top"/"sub", state |-> "good"/"invalid"/"jump"/"broken"/"unreadable"/"alien"]
Addressed(fs, recurse) == {i \in DOMAIN fs : fs[i].state # "alien" /\ (fs[i].where = "top" \/ recurse)}
Fails(fs, recurse) == \E i \in Addressed(fs, recurse) : fs[i].state \in {"invalid", "jump", "broken"}
=============================================================================
