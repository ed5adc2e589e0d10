------------------------------ MODULE WebClient ------------------------------
(* Clients of the testbed-server: not connected, or logged in with a token.   *)
(* Every request a client sends is predicted, in order, and so is who it acts *)
(* as.  There may be several clients, on several servers, at the same time.   *)
EXTENDS Integers, Sequences, FiniteSets
Public == "basic_public_access"
\* how the token is handed over: "none", "text", "file", "missing" (a file that does not exist)
TokenOf(route, tok) == IF route = "none" THEN Public ELSE tok
Good(f) == f = "ok"
Req(srv, m, w, t) == [srv |-> srv, method |-> m, what |-> w, token |-> t]
\* p: [srv, route, tok, key, user (faults)], known: tokens the server knows
Asked(p) == IF p.route = "missing" \/ p.srv = "down" THEN <<>>
            ELSE <<Req(p.srv, "GET", "key", "-")>> \o (IF Good(p.key) THEN <<Req(p.srv, "GET", "user", TokenOf(p.route, p.tok))>> ELSE <<>>)
Connects(p, known) == p.route # "missing" /\ p.srv # "down" /\ Good(p.key) /\ Good(p.user) /\ TokenOf(p.route, p.tok) \in known
\* a client is [srv, token]; <<>> while it does not exist
Client(p) == [srv |-> p.srv, token |-> TokenOf(p.route, p.tok)]
Added(c) == <<Req(c.srv, "POST", "add", "-")>>
=============================================================================
