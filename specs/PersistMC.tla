------------------------------ MODULE PersistMC ------------------------------
(* Models of two kinds with a plain leaf, a leaf inside a nested model and a   *)
(* generated leaf are created, stored fully or minimally, overwritten,         *)
(* damaged, loaded as either kind and attacked with mutations.                 *)
EXTENDS Persist, TLC, Json
CONSTANTS MaxModels, MaxRoots, Files, PlanLen
VARIABLES models, files
vars == <<models, files>>
Kinds == {"K1", "K2"}
Leaves == {"a", "n.b", "g"}
GenL == {"g"}
Dflt == 0
Vals == {0, 1}
\* the constructor: given values, defaults, freshly generated for the rest
Construct(given, t) == [l \in Leaves |-> IF l \in DOMAIN given THEN given[l] ELSE IF l \in GenL THEN 10 + t ELSE Dflt]
New(kind, given, t, org, full) == [kind |-> kind, cont |-> Construct(given, t), set |-> DOMAIN given, gen |-> GenL \ DOMAIN given, org |-> org, full |-> full]
None == [kind |-> "", dmg |-> "none", of |-> 0, full |-> FALSE, par |-> <<>>]
Hash(c) == <<c["a"], c["n.b"], c["g"]>>       \* any injective function of the content
Init == models = <<>> /\ files = [f \in Files |-> None]
Room == Len(models) < MaxModels
Roots == Cardinality({m \in DOMAIN models : models[m].org = 0})
Create == /\ Room /\ Roots < MaxRoots
          /\ \E k \in Kinds : \E D \in SUBSET Leaves : \E g \in [D -> Vals] : models' = Append(models, New(k, g, Len(models), 0, FALSE))
          /\ UNCHANGED files
Store == \E m \in DOMAIN models : \E f \in Files : \E mini \in BOOLEAN :
           /\ files' = [files EXCEPT ![f] = [kind |-> models[m].kind, dmg |-> "none", of |-> m, full |-> ~mini, par |-> [l \in Stored(models[m], mini) |-> models[m].cont[l]]]]
           /\ UNCHANGED models
Damage == \E f \in Files : files[f].of # 0 /\ files' = [files EXCEPT ![f].dmg = "broken"] /\ UNCHANGED models
Load == /\ Room
        /\ \E f \in Files : \E k \in Kinds :
             /\ files[f].of # 0
             /\ IF Loadable(files[f], k) THEN models' = Append(models, New(k, files[f].par, Len(models), files[f].of, files[f].full)) ELSE UNCHANGED models
        /\ UNCHANGED files
Next == Create \/ Store \/ Damage \/ Load
Spec == Init /\ [][Next]_vars
\* ---- what users rely on
RoundTrip == \A m \in DOMAIN models : models[m].org # 0 =>
               LET o == models[models[m].org] IN o.kind = models[m].kind /\ Faithful(o, models[m].full, models[m].cont)
\* going through further files keeps what the first one kept
RECURSIVE Root(_)
Root(m) == IF models[m].org = 0 THEN m ELSE Root(models[m].org)
ChainTrip == \A m \in DOMAIN models : Faithful(models[Root(m)], FALSE, models[m].cont)
Immutable == [][\A m \in DOMAIN models : models'[m] = models[m]]_vars
Seen == {[kind |-> models[m].kind, cont |-> models[m].cont, h |-> Hash(models[m].cont)] : m \in DOMAIN models}
Hashes == \A x \in Seen : HashOk(Seen, x.kind, x.cont, x.h)
\* ---- plans for the real code
Steps == {"storeF", "storeM", "loadR", "loadW", "damage", "mutate"}
GInit == \E p \in [1 .. PlanLen -> Steps] : /\ p[1] \in {"storeF", "storeM"} /\ p[PlanLen] \in {"loadR", "loadW", "mutate"}
         /\ models = p /\ files = 0 /\ PrintT("GEN|" \o ToJson(p))
GSpec == GInit /\ [][FALSE]_vars
=============================================================================
