----------------------------- MODULE InheritMC -----------------------------
(* The resolver climbs one ancestor at a time, merging what is not set yet.    *)
(* It must end for every database, refuse exactly broken and circular chains   *)
(* and deliver what the declarative Resolve demands - without touching the DB. *)
EXTENDS Inherit
CONSTANTS Names, Fields
VARIABLES db, db0, q, pc, cur, acc, seen
vars == <<db, db0, q, pc, cur, acc, seen>>
IdOf == CHOOSE f \in [Names -> 1 .. Cardinality(Names)] : \A a, b \in Names : a # b => f[a] # f[b]
Refs == {NoRef} \union {[k |-> "name", n |-> n, i |-> 0] : n \in Names \union {"x"}} \union {[k |-> "id", n |-> "", i |-> i] : i \in {1, 9}}
FSets == UNION {[S -> {"v"}] : S \in SUBSET Fields}
Tag(f, n) == [x \in DOMAIN f |-> n]
Init ==
  /\ \E base \in [Names -> Refs], fs \in [Names -> FSets] :
       db = [n \in Names |-> [name |-> n, id |-> IdOf[n], base |-> base[n], f |-> Tag(fs[n], n)]]
  /\ db0 = db
  /\ q \in {[name |-> n, id |-> i, base |-> b, f |-> f] : n \in {"", "x"} \union {CHOOSE a \in Names : TRUE}, i \in {-1, 1, 9},
             b \in {NoRef, [k |-> "name", n |-> (CHOOSE a \in Names : TRUE), i |-> 0], [k |-> "id", n |-> "", i |-> 2]}, f \in {Empty, Tag([x \in Fields |-> "v"], "q")}}
  /\ pc = "start" /\ cur = "" /\ acc = Empty /\ seen = {}
Go(n, s) == IF n = "" THEN pc' = "refused" /\ UNCHANGED <<cur, seen>>
            ELSE IF n \in s THEN pc' = "refused" /\ UNCHANGED <<cur, seen>>
            ELSE pc' = "climb" /\ cur' = n /\ seen' = s \union {n}
Begin ==
  /\ pc = "start"
  /\ acc' = q.f
  /\ IF q.base.k # "none" THEN Go(NameOf(db, q.base), IF q.name # "" THEN {q.name} ELSE {})
     ELSE IF Start(db, q) # "" THEN Go(Start(db, q), {})
     ELSE /\ pc' = IF Single(q) THEN "refused" ELSE "done"
          /\ UNCHANGED <<cur, seen>>
  /\ UNCHANGED <<db, db0, q>>
Up ==
  /\ pc = "climb"
  /\ acc' = acc @@ db[cur].f
  /\ IF db[cur].base.k = "none" THEN pc' = "done" /\ UNCHANGED <<cur, seen>>
     ELSE Go(NameOf(db, db[cur].base), seen)
  /\ UNCHANGED <<db, db0, q>>
Next == Begin \/ Up
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Exact == /\ pc = "done" => Resolve(db, q).ok /\ acc = Resolve(db, q).f
         /\ pc = "refused" => ~Resolve(db, q).ok
Unaltered == db = db0
ChainBound == pc \in {"done"} => Len(Resolve(db, q).chain) <= Cardinality(Names) + 1
NoRepeats == pc = "done" => LET c == Resolve(db, q).chain IN \A a, b \in DOMAIN c : a # b => c[a] # c[b]
Ends == <>(pc \in {"done", "refused"})
=============================================================================
