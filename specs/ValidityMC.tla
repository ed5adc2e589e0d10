----------------------------- MODULE ValidityMC -----------------------------
(* Design of the checker: a staged verdict with early exits, a chunked scan   *)
(* over buffer starts and a batch loop must agree with the declarative        *)
(* definitions for every file, whatever the chunk size and file order.        *)
EXTENDS Validity, TLC
CONSTANTS MaxBuf, MaxChunk, MaxFiles
Cols == {"ok", "missing", "nogain", "nooffset", "bare"}
Files == [data : BOOLEAN, mode : Modes \union {"absent", "neutral"}, window : {-99, -3, 0, 1, 50},
          dtype : {"ivsample", "ivcurve", "isc_voc", "other", "absent"}, v : Cols, c : Cols, t : Cols]
\* the real checker is exercised with files of this set
VARIABLES what, f, pc, verdict, scan, batch
vars == <<what, f, pc, verdict, scan, batch>>
NoFile == [data |-> FALSE, mode |-> "absent", window |-> -99, dtype |-> "absent", v |-> "missing", c |-> "missing", t |-> "missing"]
NoScan == [n |-> 0, devs |-> <<>>, chunk |-> 1, pos |-> 0, seen |-> {}]
NoBatch == [fs |-> <<>>, rec |-> FALSE, i |-> 1, ok |-> TRUE]

InitVerdict == /\ what = "verdict" /\ f \in Files
               /\ (~f.data => f = [NoFile EXCEPT !.mode = f.mode])
               /\ pc = 1 /\ verdict = "?" /\ scan = NoScan /\ batch = NoBatch
Decide(ok, last) == /\ verdict' = IF ~ok THEN "invalid" ELSE IF last THEN "valid" ELSE "?"
                    /\ pc' = pc + 1
VerdictStep ==
  /\ what = "verdict" /\ verdict = "?"
  /\ CASE pc = 1 -> Decide(f.data, FALSE)
       [] pc = 2 -> Decide(f.mode \in Modes, FALSE)
       [] pc = 3 -> Decide(f.window # -99, FALSE)
       [] pc = 4 -> Decide(f.dtype # "absent", FALSE)
       [] pc = 5 -> Decide(ColOk(f.t), FALSE)
       [] pc = 6 -> Decide(ColOk(f.c), FALSE)
       [] pc = 7 -> Decide(ColOk(f.v), FALSE)
       [] pc = 8 -> Decide(f.dtype \in Allowed(f.mode), FALSE)
       [] pc = 9 -> Decide(~(f.dtype = "ivcurve" /\ f.window < 1), TRUE)
  /\ UNCHANGED <<what, f, scan, batch>>
VerdictExact == verdict # "?" => (verdict = "valid" <=> Valid(f))
\* every known mode has at least one datatype, unknown structure never passes
BrokenNeverValid == Broken(f) /\ what = "verdict" => verdict # "valid"

\* chunked scan: deviations of the transitions between consecutive buffer starts
InitScan == /\ what = "scan" /\ f = NoFile /\ pc = 1 /\ verdict = "?" /\ batch = NoBatch
            /\ \E n \in 0 .. MaxBuf, ch \in 1 .. MaxChunk :
                 \E d \in [1 .. (IF n = 0 THEN 0 ELSE n - 1) -> {-1, 0, 1}] :
                   scan = [n |-> n, devs |-> d, chunk |-> ch, pos |-> 0, seen |-> {}]
ScanStep == /\ what = "scan" /\ scan.pos < scan.n
            \* a chunk sees buffer starts pos .. pos+chunk (inclusive: first start of the next chunk)
            /\ scan' = [scan EXCEPT !.seen = @ \union {scan.devs[k] : k \in (scan.pos + 1) .. (IF scan.pos + scan.chunk < scan.n
                                                                               THEN scan.pos + scan.chunk ELSE scan.n - 1)},
                                    !.pos = @ + scan.chunk]
            /\ UNCHANGED <<what, f, pc, verdict, batch>>
ScanExact == (what = "scan" /\ scan.pos >= scan.n) =>
                (scan.seen \subseteq {0} <=> \A k \in DOMAIN scan.devs : scan.devs[k] = 0)

\* the batch loop of the validate command
FileItems == [where : {"top", "sub"}, state : {"good", "invalid", "jump", "unreadable", "alien"}]
InitBatch == /\ what = "batch" /\ f = NoFile /\ pc = 1 /\ verdict = "?" /\ scan = NoScan
             /\ \E n \in 0 .. MaxFiles : \E fs \in [1 .. n -> FileItems], r \in BOOLEAN :
                  batch = [fs |-> fs, rec |-> r, i |-> 1, ok |-> TRUE]
BatchStep == /\ what = "batch" /\ batch.i <= Len(batch.fs)
             /\ batch' = [batch EXCEPT !.i = @ + 1,
                            !.ok = @ /\ ~(batch.i \in Addressed(batch.fs, batch.rec)
                                          /\ batch.fs[batch.i].state \in {"invalid", "jump"})]
             /\ UNCHANGED <<what, f, pc, verdict, scan>>
BatchExact == (what = "batch" /\ batch.i > Len(batch.fs)) => (batch.ok <=> ~Fails(batch.fs, batch.rec))

Init == InitVerdict \/ InitScan \/ InitBatch
GInit == /\ InitVerdict /\ (Cardinality({k \in {"v", "c", "t"} : f[k] = "bare"}) = 0)
         /\ PrintT("GEN|{\"data\":" \o (IF f.data THEN "true" ELSE "false") \o ",\"mode\":\"" \o f.mode \o "\",\"window\":" \o ToString(f.window)
                   \o ",\"dtype\":\"" \o f.dtype \o "\",\"v\":\"" \o f.v \o "\",\"c\":\"" \o f.c \o "\",\"t\":\"" \o f.t \o "\"}")
Next == VerdictStep \/ ScanStep \/ BatchStep
Spec == Init /\ [][Next]_vars
GSpec == GInit /\ [][FALSE]_vars
=============================================================================
