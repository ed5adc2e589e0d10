------------------------------ MODULE Inherit ------------------------------
(* Fixture database: function from (lower-case) name to entry                 *)
(*   [name, id, base, f]   base: reference or NoRef, f: field -> value         *)
(* A reference is [k |-> "name", n |-> <<lower name>>, i] or [k |-> "id", ...]. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
NoRef == [k |-> "none", n |-> "", i |-> 0]
NameOf(db, r) ==   \* name the reference resolves to, "" if unknown
  IF r.k = "name" THEN (IF r.n \in DOMAIN db THEN r.n ELSE "")
  ELSE IF r.k = "id" THEN (IF \E n \in DOMAIN db : db[n].id = r.i THEN CHOOSE n \in DOMAIN db : db[n].id = r.i ELSE "")
  ELSE ""
\* ancestors of entry n (n first); <<>> if chain is broken or circular
RECURSIVE Climb(_, _, _)
Climb(db, n, seen) ==
  IF n = "" \/ n \in seen THEN [ok |-> FALSE, c |-> <<>>]
  ELSE IF db[n].base.k = "none" THEN [ok |-> TRUE, c |-> <<n>>]
  ELSE LET r == Climb(db, NameOf(db, db[n].base), seen \union {n}) IN [ok |-> r.ok, c |-> <<n>> \o r.c]
\* query: [name ("" if not given), id (-1 if not given), base, f]
Refused == [ok |-> FALSE, chain |-> <<>>, f |-> <<>>, name |-> "", id |-> -1]
Empty == [x \in {} |-> ""]
RECURSIVE Merge(_, _, _)
Merge(db, c, i) == IF i > Len(c) THEN Empty ELSE db[c[i]].f @@ Merge(db, c, i + 1)
Single(q) == q.base.k = "none" /\ DOMAIN q.f = {} /\ ((q.name # "") # (q.id # -1))
Start(db, q) ==   \* stored model the query continues with
  IF q.base.k # "none" THEN NameOf(db, q.base)
  ELSE IF q.name # "" /\ q.name \in DOMAIN db THEN q.name
  ELSE IF q.id # -1 THEN NameOf(db, [k |-> "id", n |-> "", i |-> q.id])
  ELSE ""
Resolve(db, q) ==
  LET s == Start(db, q)
      own == q.base.k = "none"                  \* query is (an altered copy of) the stored model itself
      self == IF q.base.k # "none" /\ q.name # "" THEN {q.name} ELSE {}
      up == IF s = "" THEN [ok |-> TRUE, c |-> <<>>] ELSE Climb(db, s, self)
      bad == (Single(q) /\ s = "") \/ (q.base.k # "none" /\ s = "") \/ ~up.ok
      nm == IF q.name # "" THEN q.name ELSE IF up.c # <<>> THEN up.c[1] ELSE ""
      \* reported: the model's own name (if it has one) followed by what it inherits from
      chain == IF own THEN (IF Len(up.c) > 1 THEN <<nm>> \o Tail(up.c) ELSE <<>>)
               ELSE (IF q.name # "" THEN <<q.name>> ELSE <<>>) \o up.c
  IN  IF bad THEN Refused
      ELSE [ok |-> TRUE, chain |-> chain, f |-> q.f @@ Merge(db, up.c, 1), name |-> nm,
            id |-> IF q.id # -1 THEN q.id ELSE IF up.c # <<>> THEN db[up.c[1]].id ELSE -1]
=============================================================================
