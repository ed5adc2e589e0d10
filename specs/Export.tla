------------------------------- MODULE Export -------------------------------
(* Exporting parts of a recording into files beside it.                       *)
(* A group g: [name, n, timed, t0, dt, cols], a column c: [kind, base, step,   *)
(* gain, off] with gain/off in 1/1024 (gain 1024, off 0 if not stored).        *)
(* Values are observed in 1/1024.  kind: "num", "pair" (two values), "str".    *)
EXTENDS Integers, Sequences, FiniteSets

One == 1024
Val(c, i)  == c.base + i * c.step
Si(c, v)   == v * c.gain + c.off
Cell(c, i, raw) ==
  LET x(v) == IF raw THEN v * One ELSE Si(c, v)
  IN CASE c.kind = "num"  -> <<x(Val(c, i))>>
       [] c.kind = "pair" -> <<x(Val(c, i)), x(Val(c, i) + 1)>>
       [] c.kind = "str"  -> <<Val(c, i)>>
RECURSIVE Flat(_, _, _)
Flat(cs, i, raw) == IF cs = <<>> THEN <<>> ELSE Cell(Head(cs), i, raw) \o Flat(Tail(cs), i, raw)
\* time of entry i in ms
Time(g, i) == g.t0 + i * g.dt
CsvRow(g, i, raw) == <<Time(g, i)>> \o Flat(g.cols, i, raw)
LogRow(g, i, stamp) == (IF stamp THEN <<Time(g, i)>> ELSE <<>>) \o Flat(g.cols, i, TRUE)
Entries(g) == IF g.timed THEN g.n ELSE 0
CsvRows(g, raw)   == [i \in 1 .. Entries(g) |-> CsvRow(g, i - 1, raw)]
LogRows(g, stamp) == [i \in 1 .. Entries(g) |-> LogRow(g, i - 1, stamp)]

\* outcome of an export: nothing to do, or target exists, or everything is written
Written(g, target, present) == Entries(g) > 0 /\ target \notin present
Count(g, target, present) == IF Written(g, target, present) THEN Entries(g) ELSE 0

CsvGroups == {"ptp", "sys_util", "pru_util", "sysutil", "timesync"}
LogGroups == {"sheep", "kernel", "phc2sys", "uart", "shepherd-log", "dmesg", "exceptions"}
=============================================================================
