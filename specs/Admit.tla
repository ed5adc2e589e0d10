-------------------------------- MODULE Admit --------------------------------
(* Admission of task- and feature-parameters.  Times in ms (durations, delays)*)
(* or s relative to now (start times), voltages in mV; None = not given        *)
EXTENDS Integers, Sequences, FiniteSets
None == -99999
In(x, lo, hi) == x >= lo /\ x <= hi
OptSpan(x)    == x = None \/ x >= 0           \* optional delay / duration
Verbose(x)    == In(x, 0, 4)
Power(p) == OptSpan(p.delay) /\ OptSpan(p.dur) /\ ~(p.dis_v /\ p.dis_c) /\ ~p.calc /\ In(p.rate, 10, 100000)
Gpio(p)  == OptSpan(p.delay) /\ OptSpan(p.dur) /\ In(p.mask, 1, 1023) /\ (p.pins = None \/ In(p.pins, 1, 10)) /\ In(p.baud, 2400, 921600)
\* pins: [gpio |-> name holds "gpio", dir, pru, sys]
PinOk(g)    == g.pru \/ g.sys
Control(g)  == g.gpio /\ g.dir \in {"IO", "OUT"}
Event(p) == PinOk(p.pin) /\ Control(p.pin) /\ p.delay > 0 /\ p.period >= 10 /\ In(p.count, 1, 4096)   \* us
Instants(p) == <<p.delay, IF p.count > 1 THEN p.period ELSE 0, p.count>>
Actuation(es) == In(Len(es), 1, 1024) /\ \A i \in DOMAIN es : Event(es[i])
Aux(a) == \/ a.kind = "volt" /\ In(a.mV, 0, 4500)
          \/ a.kind = "name" /\ a.name \in {"main", "buffer"}
Start(x) == x = None \/ x >= 0
Emulation(p) == Start(p.start) /\ OptSpan(p.dur) /\ Aux(p.aux) /\ Verbose(p.verb) /\ ~p.act
Harvest(p)   == Start(p.start) /\ OptSpan(p.dur) /\ Verbose(p.verb)
Programming(p) == In(p.mV, 1000, 4999) /\ In(p.rate, 1, 1000000) /\ In(p.port, 1, 2) /\ Verbose(p.verb) /\ p.hex /\ p.proto \in {"SWD", "SBW", "JTAG", "UART"}
Modify(p)    == (p.cid = None \/ In(p.cid, 0, 65535)) /\ Verbose(p.verb)
Admitted(kind, p) ==
  CASE kind = "power" -> Power(p) [] kind = "gpio" -> Gpio(p) [] kind = "event" -> Event(p) [] kind = "emulation" -> Emulation(p)
    [] kind = "harvest" -> Harvest(p) [] kind = "programming" -> Programming(p) [] kind = "modify" -> Modify(p)
\* wall clock as noted in different notations; zone: minutes east of UTC
Notations == {"epoch", "epoch-float", "iso-offset", "iso-utc", "iso-naive", "aware", "naive"}
Wall(t, zone)    == t + zone * 60                 \* what a local clock shows
Meant(shown, naive, local, given) == IF naive THEN shown - local * 60 ELSE shown - given * 60
=============================================================================
