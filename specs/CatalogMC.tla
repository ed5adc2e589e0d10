----------------------------- MODULE CatalogMC -----------------------------
(* A catalogue grows by whatever is admitted; contents may be published later. *)
EXTENDS Catalog, TLC, Json
CONSTANTS MaxN
VARIABLES cat, tokens, nuser
vars == <<cat, tokens, nuser>>
T(n, c) == [n |-> n, c |-> c]
Names == {T(0, "plain"), T(1, "plain"), T(32, "plain"), T(33, "plain"), T(5, "reserved")}
Descs == {<<>>, <<T(1, "plain")>>, <<T(512, "reserved")>>, <<T(513, "plain")>>, <<T(7, "accent")>>, <<T(7, "tab")>>, <<T(0, "plain")>>}
Few == {T(1, "plain"), T(33, "plain")}
N1 == T(4, "plain")
D1 == <<T(3, "plain")>>
Pins == {<<>>, <<T(1, "plain")>>, <<T(10, "plain")>>, <<T(11, "plain")>>}
P2 == {<<>>, <<T(6, "plain")>>}
Gpios == {[kind |-> "gpio", p |-> [id |-> 5, name |-> n, named |-> n.n > 4 /\ n.c = "plain", desc |-> d, dir |-> "OUT", regp |-> <<T(2, "plain")>>, pinp |-> <<T(2, "plain")>>, regs |-> <<>>, pins |-> <<>>]] : n \in Names, d \in Descs}
   \union {[kind |-> "gpio", p |-> [id |-> i, name |-> T(7, "plain"), named |-> g, desc |-> <<>>, dir |-> x, regp |-> a, pinp |-> b, regs |-> c, pins |-> d]]
            : i \in {-1, 0}, g \in BOOLEAN, x \in {"IN", "OUT", "IO", "out"}, a \in P2, b \in P2, c \in {<<>>, <<0>>, <<-1>>}, d \in P2}
   \union {[kind |-> "gpio", p |-> [id |-> 5, name |-> T(6, "plain"), named |-> TRUE, desc |-> <<>>, dir |-> "IO", regp |-> a, pinp |-> b, regs |-> <<4>>, pins |-> d]] : a \in Pins, b \in Pins, d \in Pins}
Mcus == {[kind |-> "mcu", p |-> [id |-> i, name |-> n, desc |-> d, proto |-> x, mV |-> v, rate |-> r]]
            : i \in {0, -1}, n \in Few, d \in {<<>>, D1}, x \in {"SWD", "UART", "SPI"}, v \in {999, 1000, 5000, 5001}, r \in {0, 1, 1000000, 1000001}}
Targets == {[kind |-> "target", p |-> [id |-> i, name |-> n, desc |-> d, tbid |-> t, mcus |-> m]]
            : i \in {-1, 7, 65535, 65536, 70001}, n \in Few, d \in {<<>>, D1}, t \in {<<>>, <<-1>>, <<0>>, <<65535>>, <<65536>>},
              m \in {<<>>, <<"known">>, <<"other-case">>, <<"unknown">>, <<"full">>, <<"known", "unknown">>, <<"full", "other-case">>}}
Observers == {[kind |-> "observer", p |-> [id |-> 9, name |-> N1, desc |-> D1, mac |-> mc, ip |-> ip, lat |-> la, lon |-> lo, cape |-> c, ta |-> a, tb |-> b]]
            : mc \in BOOLEAN, ip \in BOOLEAN, la \in {-90001, -90000, 90000, 90001}, lo \in {-180001, -180000, 180000, 180001}, c \in BOOLEAN, a \in BOOLEAN, b \in BOOLEAN}
Envs == {[kind |-> "env", p |-> [name |-> n, desc |-> d, group |-> g, all |-> a, type |-> t, dur |-> du, ws |-> w, extra |-> x]]
            : n \in {N1, T(5, "reserved")}, d \in Descs, g \in BOOLEAN, a \in BOOLEAN, t \in {"ivsample", "ivcurve", "isc_voc", "iv"}, du \in {0, 1}, w \in {-1, 0, 1}, x \in BOOLEAN}
Users == {[kind |-> "user", p |-> [name |-> n, mail |-> m, token |-> t]] : n \in Names, m \in BOOLEAN, t \in {<<>>, <<"mine">>}}
Kinds == Gpios \union Mcus \union Targets \union Observers \union Envs \union Users
Some == {[kind |-> "env", p |-> [name |-> N1, desc |-> d, group |-> g, all |-> a, type |-> "ivcurve", dur |-> 1, ws |-> 1, extra |-> FALSE]] : d \in Descs, g \in BOOLEAN, a \in BOOLEAN}
        \union {o \in Observers : o.p.lat = 90000 /\ o.p.lon = 180000} \union {t \in Targets : t.p.mcus = <<"known">> /\ t.p.desc = D1}
        \union {x \in Gpios : x.p.id = 0 /\ x.p.named}
Init == cat = {} /\ tokens = {} /\ nuser = 0
Create == /\ Cardinality(cat) < MaxN
          /\ \E x \in Some : Admitted(x.kind, x.p) /\ cat' = cat \union {x} /\ UNCHANGED <<tokens, nuser>>
\* publishing is a new content that differs in its visibility: admitted anew
Publish == \E x \in {y \in cat : y.kind = "env"} :
             LET z == [x EXCEPT !.p.all = TRUE] IN
             /\ Admitted(z.kind, z.p) /\ cat' = (cat \ {x}) \union {z} /\ UNCHANGED <<tokens, nuser>>
\* every user without token gets a fresh one
Join == /\ nuser < MaxN /\ nuser' = nuser + 1 /\ tokens' = tokens \union {nuser} /\ UNCHANGED cat
Spec == Init /\ [][Create \/ Publish \/ Join]_vars
Described == \A x \in cat : x.kind = "env" /\ (x.p.group \/ x.p.all) => x.p.desc # <<>>
Equipped  == \A x \in cat : x.kind = "observer" /\ (x.p.ta \/ x.p.tb) => x.p.cape
Drivable  == \A x \in cat : x.kind = "gpio" => (Len(x.p.regp) + Len(x.p.pinp) = 2 \/ Len(x.p.regs) + Len(x.p.pins) = 2)
Addressed == \A x \in cat : x.kind = "target" => TestbedId(x.p) \in 0 .. 65535
OwnToken  == Cardinality(tokens) = nuser
VARIABLE g
GInit == Init /\ g \in Kinds /\ PrintT("GEN|" \o ToJson(g))
GSpec == GInit /\ [][FALSE]_<<g, vars>>
MSpec == (Init /\ g = 0) /\ [][(Create \/ Publish \/ Join) /\ g' = g]_<<g, vars>>
=============================================================================
