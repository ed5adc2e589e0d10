----------------------------- MODULE WebClientMC -----------------------------
(* Several clients connect to several servers in any order, requests one by    *)
(* one; servers fail at any of them.                                           *)
EXTENDS WebClient, TLC, Json
CONSTANTS N, Tokens, MaxLog
VARIABLES ph, want, who, log, stored
vars == <<ph, want, who, log, stored>>
Cs == 1 .. N
Servers == {"a", "b"}
Known(s) == IF s = "a" THEN Tokens \union {Public} ELSE {Public, "t1"}
Init == ph = [c \in Cs |-> "none"] /\ want = [c \in Cs |-> <<>>] /\ who = [c \in Cs |-> <<>>] /\ log = <<>> /\ stored = [s \in Servers |-> 0]
Room == Len(log) < MaxLog
Start(c) == /\ ph[c] \in {"none", "failed"}
            /\ \E s \in Servers \union {"down"}, r \in {"none", "text", "missing"}, t \in Tokens :
                  LET p == [srv |-> s, route |-> r, tok |-> t] IN
                  /\ want' = [want EXCEPT ![c] = p]
                  /\ ph' = [ph EXCEPT ![c] = IF r = "missing" \/ s = "down" THEN "failed" ELSE "key"]
            /\ UNCHANGED <<who, log, stored>>
Key(c) == /\ ph[c] = "key" /\ Room
          /\ log' = Append(log, <<c, Req(want[c].srv, "GET", "key", "-")>>)
          /\ \E ok \in BOOLEAN : ph' = [ph EXCEPT ![c] = IF ok THEN "user" ELSE "failed"]
          /\ UNCHANGED <<want, who, stored>>
Login(c) == /\ ph[c] = "user" /\ Room
            /\ log' = Append(log, <<c, Req(want[c].srv, "GET", "user", TokenOf(want[c].route, want[c].tok))>>)
            /\ \E ok \in BOOLEAN :
                  IF ok /\ TokenOf(want[c].route, want[c].tok) \in Known(want[c].srv)
                  THEN ph' = [ph EXCEPT ![c] = "in"] /\ who' = [who EXCEPT ![c] = Client(want[c])]
                  ELSE ph' = [ph EXCEPT ![c] = "failed"] /\ UNCHANGED who
            /\ UNCHANGED <<want, stored>>
Insert(c) == /\ ph[c] = "in" /\ Room
             /\ log' = Append(log, <<c, Added(who[c])[1]>>)
             /\ \E ok \in BOOLEAN : stored' = [stored EXCEPT ![who[c].srv] = @ + (IF ok THEN 1 ELSE 0)]
             /\ UNCHANGED <<ph, want, who>>
Next == \E c \in Cs : Start(c) \/ Key(c) \/ Login(c) \/ Insert(c)
Of(c) == SelectSeq(log, LAMBDA x : x[1] = c)
\* nobody acts without a login, and only as the one whose token was given
Identity == \A c \in Cs : (ph[c] = "in" <=> who[c] # <<>>) /\ (who[c] # <<>> => who[c].token \in Known(who[c].srv))
\* a token is only sent to the server it was meant for, and only after this server handed out a key
Secrecy == \A k \in DOMAIN log : log[k][2].what = "user" =>
              \E j \in 1 .. k - 1 : log[j][1] = log[k][1] /\ log[j][2].what = "key" /\ log[j][2].srv = log[k][2].srv
NoEarlyAdd == \A k \in DOMAIN log : log[k][2].what = "add" => \E j \in 1 .. k - 1 : log[j][1] = log[k][1] /\ log[j][2].what = "user" /\ log[j][2].srv = log[k][2].srv
Bounded == \A s \in Servers : stored[s] <= Cardinality({k \in DOMAIN log : log[k][2].what = "add" /\ log[k][2].srv = s})
(* ---- requests for the code *)
Faults == {"ok", "503", "404", "401", "nojson", "novalue"}
Requests == {[srv |-> "a", route |-> r, tok |-> t, key |-> k, user |-> u] : r \in {"none", "text", "file"}, t \in {"t1", "stranger"}, k \in Faults, u \in Faults}
            \union {[srv |-> s, route |-> r, tok |-> t, key |-> "ok", user |-> "ok"] : s \in {"a", "b", "down"}, r \in {"none", "text", "file", "missing"}, t \in {"t1", "t2", "stranger"}}
VARIABLE g
GInit == Init /\ g \in Requests /\ PrintT("GEN|" \o ToJson(g))
GSpec == GInit /\ [][FALSE]_<<g, vars>>
MSpec == (Init /\ g = 0) /\ [][Next /\ g' = g]_<<g, vars>>
=============================================================================
