--------------------------- MODULE WebClientTrace ---------------------------
EXTENDS WebClient, TraceData, TLC
VARIABLES tid, l, st, vd
Chk(name, b) == IF b THEN {} ELSE {name}
Res(s, b, e) == [st |-> s, bad |-> b, exp |-> e]
\* state: clients, users known per server: token |-> [name, group]
WInit(i) == [cl |-> <<>>, users |-> i.users]
Known(s, srv) == IF srv = "down" THEN {} ELSE DOMAIN s.users[srv]
\* what was asked, without the body
Log(o) == [k \in DOMAIN o.log |-> Req(o.log[k].srv, o.log[k].method, o.log[k].what, o.log[k].token)]
Plain(o) == Chk("unexpected-parameters", \A k \in DOMAIN o.log : o.log[k].extra = 0)
WApply(s, e) ==
  CASE e.op = "create" ->
         LET ok == Connects(e.p, Known(s, e.p.srv)) IN
         Res([s EXCEPT !.cl = Append(@, IF ok THEN <<Client(e.p)>> ELSE <<>>)],
             Chk(IF ok THEN "connects" ELSE "should-fail", e.obs.ok = ok) \union Chk("requests", Log(e.obs) = Asked(e.p)) \union Plain(e.obs) \union Chk("offline-data", e.obs.offline),
             <<ok, Asked(e.p)>>)
    [] e.op = "insert" ->
         LET c == s.cl[e.c][1]  ok == Good(e.fault) IN
         Res(s, Chk(IF ok THEN "accepted" ELSE "error-must-surface", e.obs.ok = ok) \union Chk("requests", Log(e.obs) = Added(c))
                \union Chk("content", e.obs.same) \union Plain(e.obs), Added(c))
    [] e.op = "fill" ->
         LET c == s.cl[e.c][1]  u == s.users[c.srv][c.token]
             exp == [owner |-> IF e.owner = "-" THEN u.name ELSE e.owner, group |-> IF e.group = "-" THEN u.group ELSE e.group] IN
         Res(s, Chk("identity", e.obs.owner = exp.owner /\ e.obs.group = exp.group) \union Chk("no-request", e.obs.log = <<>>) \union Chk("rest-kept", e.obs.rest), exp)
    [] OTHER -> Res(s, {"unknown-op"}, e.op)
INSTANCE TraceBase WITH InitSt <- WInit, Apply <- WApply
=============================================================================
