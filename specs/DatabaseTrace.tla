---------------------------- MODULE DatabaseTrace ----------------------------
EXTENDS Database, TraceData, TLC
VARIABLES tid, l, st, vd
Chk(name, b) == IF b THEN {} ELSE {name}
Res(s, b, e) == [st |-> s, bad |-> b, exp |-> e]
\* state: log per type, open iterations
DInit(i) == [db |-> [t \in {i.types[k] : k \in DOMAIN i.types} |-> <<>>], its |-> <<>>]
Has(s, t) == s.db[t] # <<>>
Put(s, t, es) == [s EXCEPT !.db[t] = @ \o es]
Stored(es, t) == SelectSeq(es, LAMBDA e : e.type = t)
Strip(es) == [i \in DOMAIN es |-> [key |-> es[i].key, name |-> es[i].name, id |-> es[i].id, tag |-> es[i].tag]]
PutAll(s, es) == [s EXCEPT !.db = [t \in DOMAIN s.db |-> s.db[t] \o Strip(Stored(es, t))]]
Tags(o, ok, e) == IF ok THEN Chk("found", o.ok) \union (IF o.ok THEN Chk("answer", o.tag = e.tag /\ o.id = e.id /\ o.name = e.name) ELSE {})
                  ELSE Chk("unknown-refused", ~o.ok)
Look(s, e) == LET log == s.db[e.type]
                  ok == Has(s, e.type) /\ (IF e.how = "item" THEN ItemOk(log, e) ELSE QueryOk(log, e))
                  x == IF ok THEN (IF e.how = "item" THEN Item(log, e) ELSE Query(log, e)) ELSE [tag |-> 0, id |-> 0, name |-> ""]
              IN Res(s, Tags(e.obs, ok, x), <<ok, x>>)
ListT(s, e) == LET log == s.db[e.type] o == e.obs IN
  IF ~Has(s, e.type) THEN Res(s, Chk("unknown-refused", ~o.ok \/ (o.names = <<>> /\ o.ids = <<>>)), "refused")
  ELSE Res(s, Chk("found", o.ok) \union
              (IF o.ok THEN Chk("names", Len(o.names) = Cardinality(Keys(log)) /\ {o.names[i] : i \in DOMAIN o.names} = Keys(log))
                            \union Chk("ids", Len(o.ids) = Cardinality(Ids(log)) /\ {o.ids[i] : i \in DOMAIN o.ids} = Ids(log))
                            \union Chk("refs", e.norefs \/ (Len(o.refs) = Cardinality(Ids(log)) /\ {<<o.refs[i][1], o.refs[i][2]>> : i \in DOMAIN o.refs} = Refs(log)))
               ELSE {}), <<Keys(log), Ids(log), Refs(log)>>)
New(s, e) == Res([s EXCEPT !.its = Append(@, [type |-> e.type, it |-> IterNew(s.db[e.type]), done |-> FALSE])], {}, "")
Nxt(s, e) == LET h == s.its[e.h] log == s.db[h.type] o == e.obs IN
  IF o.done THEN Res([s EXCEPT !.its[e.h].done = TRUE], Chk("complete", IterMayEnd(log, h.it)), Keys(log) \ h.it.seen)
  ELSE Res([s EXCEPT !.its[e.h].it.seen = @ \union {o.key}], Chk("visited", <<o.key, o.tag>> \in IterTags(log, h.it)), IterTags(log, h.it))
DApply(s, e) ==
  CASE e.op = "store" -> Res(PutAll(s, e.entries), Chk("stored", e.obs.ok = ~e.bad), e.bad)
    [] e.op = "look" -> Look(s, e)
    [] e.op = "list" -> ListT(s, e)
    [] e.op = "types" -> Res(s, Chk("types", {e.obs.types[i] : i \in DOMAIN e.obs.types} = {t \in DOMAIN s.db : Has(s, t)}), {t \in DOMAIN s.db : Has(s, t)})
    [] e.op = "open" -> New(s, e)
    [] e.op = "next" -> Nxt(s, e)
    [] e.op = "taint" -> Res(s, {}, "")
    [] e.op = "opendb" -> Res(s, Chk("path", e.obs.ok = OpenOk(e.p)) \union (IF e.obs.ok /\ OpenOk(e.p) THEN Chk("source", e.obs.source \in Sources(e.p)) ELSE {}), Sources(e.p))
    [] OTHER -> Res(s, {"unknown-op"}, e.op)
INSTANCE TraceBase WITH InitSt <- DInit, Apply <- DApply
=============================================================================
