------------------------------- MODULE Persist -------------------------------
(* Life of models: created once, never changed, stored to and loaded from     *)
(* files, identified by a hash.                                               *)
(* A model is [kind, cont, set, gen]: cont maps every leaf (dotted path of a   *)
(* nested attribute) to its value, set holds the leaves that were given        *)
(* explicitly on every level, gen those that got a generated value (fresh id,  *)
(* creation time) because nothing was given.                                   *)
(* A file is [kind, dmg, full, of]: of is the number of the model it was       *)
(* written from, dmg what was done to it since.                                *)
EXTENDS Naturals, FiniteSets, Sequences

\* ---- what has to be in a file so that the model can be rebuilt from it
Stored(m, minimal) == IF minimal THEN m.set ELSE DOMAIN m.cont

\* ---- a file is taken only if it is sound and holds the requested kind
Loadable(f, kind) == f.dmg = "none" /\ f.kind = kind

\* ---- leaves of the loaded model that have to equal the original
Pinned(m, full) == IF full THEN DOMAIN m.cont ELSE DOMAIN m.cont \ m.gen

Faithful(m, full, cont) == /\ DOMAIN cont = DOMAIN m.cont
                           /\ \A l \in Pinned(m, full) : cont[l] = m.cont[l]
Broken(m, full, cont) == {l \in Pinned(m, full) : l \notin DOMAIN cont \/ cont[l] # m.cont[l]}
                         \union (DOMAIN cont \ DOMAIN m.cont)

\* ---- explicit values are taken over
Taken(given, cont) == \A l \in DOMAIN given : l \in DOMAIN cont /\ cont[l] = given[l]

\* ---- defaults are the same for every instance of a kind
\* defs: set of [kind, leaf, val] seen so far for leaves never given nor generated
TopUnset(m) == DOMAIN m.cont \ (m.set \union m.gen)

\* ---- hashes identify content within a kind
HashOk(hs, kind, cont, h) == \A x \in hs : x.kind = kind => ((x.cont = cont) <=> (x.h = h))
=============================================================================
