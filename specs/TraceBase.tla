----------------------------- MODULE TraceBase -----------------------------
(* Generic trace acceptance.  A trace file holds one recorded scenario per    *)
(* line: [sid, init, ev].  Each scenario is replayed, event by event, through *)
(* the specification's transition function Apply; `bad` names every clause of *)
(* the specification that the recorded implementation step breaks.            *)
EXTENDS Naturals, Sequences, TLC

CONSTANTS Trace,                   \* from TraceData
          InitSt(_), Apply(_, _)   \* Apply(st, ev) = [st, bad, exp]

VARIABLES tid, l, st, vd

Evs(t) == Trace[t].ev

TInit == /\ tid \in 1 .. Len(Trace)
         /\ l = 1
         /\ vd = "run"
         /\ st = InitSt(Trace[tid].init)

TNext == /\ vd = "run"
         /\ l <= Len(Evs(tid))
         /\ LET r == Apply(st, Evs(tid)[l])
            IN  IF r.bad = {}
                THEN /\ st' = r.st
                     /\ l' = l + 1
                     /\ vd' = IF l = Len(Evs(tid)) THEN "accept" ELSE "run"
                     /\ tid' = tid
                ELSE /\ vd' = "reject"
                     /\ PrintT("REJECT|" \o ToString(tid) \o "|" \o ToString(l) \o "|"
                               \o ToString(r.bad) \o "|" \o ToString(r.exp))
                     /\ UNCHANGED <<tid, l, st>>

tvars == <<tid, l, st, vd>>
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
