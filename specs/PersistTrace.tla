---------------------------- MODULE PersistTrace ----------------------------
EXTENDS Persist, TraceData, TLC
VARIABLES tid, l, st, vd
Chk(name, b) == IF b THEN {} ELSE {name}
Res(s, b, e) == [st |-> s, bad |-> b, exp |-> e]
S2(q) == {q[k] : k \in DOMAIN q}
PeInit(i) == [models |-> <<>>, files |-> << >>, hashes |-> {}, defs |-> {}]
Mod(e) == [kind |-> e.kind, cont |-> e.obs.cont, set |-> S2(e.obs.set), gen |-> S2(e.obs.gen)]
NewDefs(e) == {[kind |-> e.kind, leaf |-> x, val |-> e.obs.cont[x]] : x \in S2(e.obs.dflt)}
DefsOk(ds, ns) == \A n \in ns : \A d \in ds : (d.kind = n.kind /\ d.leaf = n.leaf) => d.val = n.val
FileOf(s, p) == s.files[CHOOSE k \in DOMAIN s.files : s.files[k].path = p]
Put(fs, r) == SelectSeq(fs, LAMBDA x : x.path # r.path) \o <<r>>
Refusals == {"setattr", "delattr", "setitem", "newattr", "nested"}
PeApply(s, e) ==
  CASE e.op = "create" ->
         IF ~e.obs.ok THEN Res(s, Chk("admission", ~e.must), <<>>)
         ELSE LET m == Mod(e)
                  n == NewDefs(e) IN
              Res([s EXCEPT !.models = Append(@, m), !.defs = @ \union n],
                  Chk("unknown-field", ~e.extra) \union Chk("given", Taken(e.given, m.cont)) \union Chk("defaults", DefsOk(s.defs, n)) \union Chk("access", e.obs.access),
                  {x \in DOMAIN e.given : x \notin DOMAIN m.cont \/ m.cont[x] # e.given[x]})
    [] e.op = "mutate" ->
         LET m == s.models[e.m] IN
         Res(s, Chk("immutable", e.obs.cont = m.cont) \union (IF e.how \in Refusals THEN Chk("refused", e.obs.refused) ELSE {}), e.how)
    [] e.op = "store" ->
         LET m == s.models[e.m]
             f == [path |-> e.obs.path, kind |-> m.kind, dmg |-> "none", full |-> ~e.minimal, of |-> e.m] IN
         IF ~e.obs.ok THEN Res(s, {"stored"}, e.obs.err)
         ELSE Res([s EXCEPT !.files = Put(@, f)],
                  Chk("path", e.obs.path = e.path) \union Chk("neighbours", e.obs.others) \union Chk("immutable", e.obs.cont = m.cont) \union Chk("comment", e.obs.comment), e.path)
    [] e.op = "damage" -> Res([s EXCEPT !.files = Put(@, [FileOf(s, e.path) EXCEPT !.dmg = e.how])], {}, <<>>)
    [] e.op = "load" ->
         LET f == FileOf(s, e.path)
             o == s.models[f.of]
             can == Loadable(f, e.kind) IN
         IF ~e.obs.ok THEN Res(s, Chk("loads", ~can) \union Chk("files-untouched", e.obs.files), e.obs.err)
         ELSE IF ~can THEN Res(s, {"refuses"}, f)
         ELSE LET m == Mod(e) IN
              Res([s EXCEPT !.models = Append(@, m)],
                  Chk("faithful", Faithful(o, f.full, m.cont)) \union Chk("equal", f.full => e.obs.eq) \union Chk("files-untouched", e.obs.files) \union Chk("class", e.obs.class = e.kind),
                  Broken(o, f.full, m.cont))
    [] e.op = "hash" ->
         LET m == s.models[e.m] IN
         Res([s EXCEPT !.hashes = @ \union {[kind |-> m.kind, cont |-> m.cont, h |-> e.obs.h]}],
             Chk("hash", HashOk(s.hashes, m.kind, m.cont, e.obs.h)) \union Chk("immutable", e.obs.cont = m.cont), <<>>)
    [] OTHER -> Res(s, {"unknown-op"}, e.op)
INSTANCE TraceBase WITH InitSt <- PeInit, Apply <- PeApply
=============================================================================
