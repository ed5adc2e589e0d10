------------------------------- MODULE AdmitMC ------------------------------
(* Tasks get created while time passes: no admitted task starts before its    *)
(* creation, every notation of an instant leads to the same task.             *)
EXTENDS Admit, TLC, Json
CONSTANTS MaxT, Zones
VARIABLES now, tasks
vars == <<now, tasks>>
Local == 60
AllZones == {-330, 0, 60, 120}
\* the instant a task gets from t when noted in a way
Noted(t, nt, zone) == CASE nt \in {"epoch", "epoch-float"} -> t
                        [] nt \in {"iso-naive", "naive"} -> Meant(Wall(t, Local), TRUE, Local, zone)
                        [] nt = "iso-utc" -> Meant(Wall(t, 0), FALSE, Local, 0)
                        [] OTHER -> Meant(Wall(t, zone), FALSE, Local, zone)
Task(t, d) == [start |-> t - now, dur |-> d, verb |-> 2, act |-> FALSE, aux |-> [kind |-> "volt", mV |-> 0, name |-> ""]]
Init == now = 0 /\ tasks = {}
Tick == now < MaxT /\ now' = now + 1 /\ tasks' = tasks
Create == /\ Cardinality(tasks) < 3
          /\ \E t \in 0 .. MaxT, nt \in Notations, zone \in Zones :
                LET x == Noted(t, nt, zone) IN
                /\ Emulation(Task(x, 5)) /\ tasks' = tasks \union {[made |-> now, start |-> x, meant |-> t]} /\ now' = now
Spec == Init /\ [][Tick \/ Create]_vars
NotPast  == \A k \in tasks : k.start >= k.made
SameTime == \A k \in tasks : k.start = k.meant
Periodic == \A d \in {1, 7}, p \in {10, 11}, c \in {1, 2, 9} :
              LET i == Instants([delay |-> d, period |-> p, count |-> c]) IN i[3] = c /\ i[1] + (i[3] - 1) * i[2] = d + (c - 1) * p
ASSUME Periodic
\* boundary combinations for the code
B == {None, -1, 0, 1}
VARIABLE g
GInit == /\ now = 0 /\ tasks = {}
         /\ \/ \E de \in B, du \in B, v \in BOOLEAN, c \in BOOLEAN, k \in BOOLEAN, r \in {9, 10, 100000, 100001} :
                 g = [kind |-> "power", p |-> [delay |-> de, dur |-> du, dis_v |-> v, dis_c |-> c, calc |-> k, rate |-> r]]
            \/ \E de \in B, du \in B, m \in {0, 1, 1023, 1024}, k \in {None, 0, 1, 10, 11}, b \in {2399, 2400, 921600, 921601} :
                 g = [kind |-> "gpio", p |-> [delay |-> de, dur |-> du, mask |-> m, pins |-> k, baud |-> b]]
            \/ \E de \in {-1, 0, 1}, pe \in {0, 9, 10, 1000}, c \in {0, 1, 4096, 4097}, n \in BOOLEAN, d \in {"IN", "OUT", "IO"}, s \in BOOLEAN, r \in BOOLEAN :
                 g = [kind |-> "event", p |-> [delay |-> de, period |-> pe, count |-> c, pin |-> [gpio |-> n, dir |-> d, pru |-> r, sys |-> s]]]
            \/ \E st \in {None, -60, 60}, du \in B, vb \in {-1, 0, 4, 5}, ac \in BOOLEAN,
                  a \in {[kind |-> "volt", mV |-> x, name |-> ""] : x \in {-1, 0, 4500, 4501}} \union {[kind |-> "name", mV |-> 0, name |-> x] : x \in {"main", "buffer", "mid", ""}} :
                 g = [kind |-> "emulation", p |-> [start |-> st, dur |-> du, verb |-> vb, act |-> ac, aux |-> a]]
            \/ \E st \in {None, -60, 60}, du \in B, vb \in {-1, 0, 4, 5} : g = [kind |-> "harvest", p |-> [start |-> st, dur |-> du, verb |-> vb]]
            \/ \E mv \in {999, 1000, 4999, 5000}, r \in {0, 1, 1000000, 1000001}, po \in {0, 1, 2, 3}, vb \in {0, 5}, h \in BOOLEAN, pr \in {"SWD", "UART", "SPI"} :
                 g = [kind |-> "programming", p |-> [mV |-> mv, rate |-> r, port |-> po, verb |-> vb, hex |-> h, proto |-> pr]]
            \/ \E c \in {None, -1, 0, 65535, 65536}, vb \in {-1, 0, 4, 5} : g = [kind |-> "modify", p |-> [cid |-> c, verb |-> vb]]
         /\ PrintT("GEN|" \o ToJson(g))
GSpec == GInit /\ [][FALSE]_<<g, vars>>
MSpec == (Init /\ g = 0) /\ [][(Tick \/ Create) /\ g' = g]_<<g, vars>>
=============================================================================
