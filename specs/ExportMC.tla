------------------------------ MODULE ExportMC ------------------------------
(* Any sequence of exports (single calls and batches over several files):     *)
(* targets are complete when they appear and never change afterwards.         *)
EXTENDS Export, TLC
CONSTANTS MaxOps, NFiles
VARIABLES grp,      \* grp[f][g]: number of entries of group g in file f, -1: file unusable
          files,    \* target -> number of rows it holds
          last, nops
vars == <<grp, files, last, nops>>
Gs == {"ptp", "kernel"}
Pre == 99           \* a target that was there before
T(f, g) == <<f, g>>
Init == /\ grp \in [1 .. NFiles -> {[ptp |-> -1, kernel |-> -1]} \union [Gs -> 0 .. 2]]
        /\ \E ex \in SUBSET ((1 .. NFiles) \X Gs) : files = [t \in ex |-> Pre]
        /\ last = 0 /\ nops = 0
Usable(f) == grp[f].ptp >= 0
G(f, g) == [n |-> grp[f][g], timed |-> TRUE]
Export1(fs, f, g) == IF Written(G(f, g), T(f, g), DOMAIN fs)
                     THEN [t \in DOMAIN fs \union {T(f, g)} |-> IF t = T(f, g) THEN grp[f][g] ELSE fs[t]]
                     ELSE fs
Single == \E f \in 1 .. NFiles, g \in Gs :
            /\ Usable(f)
            /\ last' = Count(G(f, g), T(f, g), DOMAIN files)
            /\ files' = Export1(files, f, g)
RECURSIVE All(_, _)
All(fs, todo) == IF todo = {} THEN fs
                 ELSE LET x == CHOOSE y \in todo : TRUE
                      IN  All(IF Usable(x[1]) THEN Export1(fs, x[1], x[2]) ELSE fs, todo \ {x})
Batch == \E dir \in SUBSET (1 .. NFiles) :
            /\ files' = All(files, dir \X Gs)
            /\ last' = 0
Next == nops < MaxOps /\ nops' = nops + 1 /\ UNCHANGED grp /\ (Single \/ Batch)
Spec == Init /\ [][Next]_vars
NeverOverwritten == [][\A t \in DOMAIN files : t \in DOMAIN files' /\ files'[t] = files[t]]_vars
Complete == \A t \in DOMAIN files : files[t] # Pre => (files[t] = grp[t[1]][t[2]] /\ files[t] > 0)
CountHonest == [][last' > 0 => \E t \in DOMAIN files' \ DOMAIN files : files'[t] = last']_vars
=============================================================================
