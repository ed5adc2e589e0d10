---------------------------- MODULE RecordingMC ----------------------------
(* Bounded design check of Recording: two handles interleaving on few files. *)
EXTENDS Recording, TLC

CONSTANTS Handles, Names, MaxRows, MaxOps

VARIABLES st, ops
vars == <<st, ops>>

Init == /\ st = [files |-> <<>>, ses |-> [h \in Handles |-> NoSes]]
        /\ ops = 0

OpenArgs == [name : {"r"}, modify : BOOLEAN, force : BOOLEAN,
             mode : {"", "emulator"}, dtype : {"", "ivcurve"}, win : {-1, 1}, cal : {-1, 1}]

Open(h) == \E a \in OpenArgs, name \in Names :
             /\ st.ses[h].file = ""
             /\ ~(a.modify /\ a.force)
             /\ OpenAllowed(st, a)
             /\ TargetOk(st, a, name)
             /\ ~IsOpen(st, name)
             /\ st' = DoOpen(st, h, a, name)

Apps(f, h) ==
  LET last == IF Rows(f) = 0 THEN 0 ELSE LastT(f.segs)
  IN { [id |-> ops + 1, tk |-> k, nt |-> n, nv |-> n, nc |-> n + x, t0 |-> last + g, dt |-> d] :
         k \in {"int", "array"}, n \in 1 .. 3, x \in {0, 1}, g \in {DEFIV}, d \in {DEFIV, 2 * DEFIV} }

App(h) == /\ st.ses[h].file # ""
          /\ LET f == st.files[st.ses[h].file]
             IN \E a \in Apps(f, h) : /\ Rows(f) + AppendRows(a) <= MaxRows
                                      /\ st' = DoAppend(st, h, a)

Close(h) == st.ses[h].file # "" /\ st' = DoClose(st, h)
Stat(h)  == st.ses[h].file # "" /\ st' = DoStat(st, h)

Next == /\ ops < MaxOps /\ ops' = ops + 1
        /\ \E h \in Handles : Open(h) \/ App(h) \/ Close(h) \/ Stat(h)

Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
OneWriter == \A f \in DOMAIN st.files : Cardinality({h \in Handles : st.ses[h].file = f}) <= 1

AttrsAdmissible == \A f \in DOMAIN st.files :
  st.files[f].mode \in Modes /\ st.files[f].dtype \in TypesOf(st.files[f].mode)

\* what is stored is only ever extended, replaced on an explicit force, or cut by a close
Kept(old, new) == IsPrefix(old.segs, new.segs)
Cut(old, new)  == /\ \E m \in 0 .. Rows(old) : new.segs = Take(old.segs, m) /\ Rows(old) - m < BUF
                  /\ (Rows(new) < Rows(old) => Rows(new) % BUF = 0)
HistoryPreserved ==
  [][ \A f \in DOMAIN st.files :
        /\ f \in DOMAIN st'.files
        /\ \/ Kept(st.files[f], st'.files[f])
           \/ IsOpen(st, f) /\ Cut(st.files[f], st'.files[f])
           \/ ~IsOpen(st, f) /\ IsOpen(st', f) /\ f = "r" /\ st'.files[f].segs = <<>> ]_vars

\* a file nobody has open keeps every attribute and sample
OthersUntouched ==
  [][ \A f \in DOMAIN st.files :
        (~IsOpen(st, f) /\ ~IsOpen(st', f)) => st'.files[f] = st.files[f] ]_vars

\* whole buffers survive closing
WholeBuffers ==
  [][ \A f \in DOMAIN st.files : Rows(st'.files[f]) = 0 \/ ~(IsOpen(st, f) /\ ~IsOpen(st', f)) \/
        Rows(st'.files[f]) >= (Rows(st.files[f]) \div BUF) * BUF ]_vars
=============================================================================
