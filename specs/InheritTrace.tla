---------------------------- MODULE InheritTrace ----------------------------
EXTENDS Inherit, TraceData
VARIABLES tid, l, st, vd
Chk(name, b) == IF b THEN {} ELSE {name}
Res(s, b, e) == [st |-> s, bad |-> b, exp |-> e]
\* init: [db: sequence of entries, req: required fields, def: defaults of the model]
RECURSIVE Load(_, _)
Load(es, i) == IF i = 0 THEN [x \in {} |-> 0] ELSE (es[i].name :> es[i]) @@ Load(es, i - 1)
IInit(i) == [db |-> Load(i.db, Len(i.db)), req |-> {i.req[k] : k \in DOMAIN i.req}, def |-> i.def, inst |-> [x \in {} |-> ""]]
Q(e) == [name |-> e.q.name, id |-> e.q.id, base |-> e.q.base, f |-> e.q.f]
IApply(s, e) ==
  CASE e.op = "insert" -> Res([s EXCEPT !.db = (e.e.name :> e.e) @@ @], {}, 0)
    [] e.op = "query" ->
         LET r == Resolve(s.db, Q(e)) IN
         Res(s, Chk("admitted", e.obs.ok = r.ok)
                \union (IF e.obs.ok /\ r.ok
                        THEN Chk("fields", e.obs.f = r.f) \union Chk("name", e.obs.name = r.name)
                             \union Chk("id", e.obs.id = r.id) \union Chk("chain", e.obs.chain = r.chain)
                        ELSE {})
                \union Chk("query-altered", e.obs.same), r)
    [] e.op = "model" ->
         LET r == Resolve(s.db, Q(e))
             ok == r.ok /\ r.name # "" /\ s.req \subseteq DOMAIN r.f
             want == r.f @@ s.def
         IN  Res(s, Chk("admitted", e.obs.ok = ok)
                    \union (IF e.obs.ok /\ ok
                            THEN Chk("model-fields", \A k \in DOMAIN e.obs.f : e.obs.f[k] = want[k])
                                 \union Chk("model-name", e.obs.name = r.name)
                                 \union Chk("model-id", r.id = -1 \/ e.obs.id = r.id)
                            ELSE {}), [ok |-> ok, want |-> want])
    [] e.op = "get" ->
         LET n == NameOf(s.db, e.ref) IN
         Res(s, Chk("lookup", e.obs.name = n), n)
    [] e.op = "keys" ->
         Res(s, Chk("names", {e.obs.names[k] : k \in DOMAIN e.obs.names} = DOMAIN s.db)
                \union Chk("ids", {e.obs.ids[k] : k \in DOMAIN e.obs.ids} = {s.db[n].id : n \in DOMAIN s.db}), DOMAIN s.db)
    [] e.op = "stored" ->
         LET got == {e.obs.db[k] : k \in DOMAIN e.obs.db} IN
         Res(s, Chk("stored-altered", got = {s.db[n] : n \in DOMAIN s.db}), 0)
    [] e.op = "inst" ->       \* same reference, same model - whatever was asked before
         IF e.key \in DOMAIN s.inst THEN Res(s, Chk("order-dependent", s.inst[e.key] = e.obs.h), s.inst[e.key])
         ELSE Res([s EXCEPT !.inst = (e.key :> e.obs.h) @@ @], {}, 0)
    [] OTHER -> Res(s, {"unknown-op"}, e.op)
INSTANCE TraceBase WITH InitSt <- IInit, Apply <- IApply
=============================================================================
