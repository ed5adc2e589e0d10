------------------------------ MODULE Catalog ------------------------------
(* Contents, components of the testbed and users: what is admitted, and what   *)
(* an admitted one says about itself.  Optional values are sequences of at     *)
(* most one element; a text is [n (length), c (kind of characters)]; voltages   *)
(* in mV, angles in 1/1000 degree, durations and energies in 1/1000.           *)
EXTENDS Integers, Sequences, FiniteSets
All(o, P(_))  == \A i \in DOMAIN o : P(o[i])
NameOk(t)     == t.n \in 1 .. 32 /\ t.c = "plain"                 \* usable as name of a file
TextOk(t)     == t.n \in 1 .. 512 /\ t.c \in {"plain", "reserved"} \* printable ascii
ShortOk(t)    == t.n \in 1 .. 10
IdOk(i)       == i >= 0 /\ i < 2100000000                     \* from here on: 2^128 and more
\* gpio: [id, name, desc, dir, regp, pinp, regs, pins]
Gpio(f) == /\ IdOk(f.id) /\ NameOk(f.name) /\ All(f.desc, TextOk) /\ f.dir \in {"IN", "OUT", "IO"}
           /\ All(f.regp, ShortOk) /\ All(f.pinp, ShortOk) /\ All(f.pins, ShortOk) /\ All(f.regs, LAMBDA r : r >= 0)
           /\ ((f.regp # <<>> /\ f.pinp # <<>>) \/ (f.regs # <<>> /\ f.pins # <<>>))
Controllable(f) == f.named /\ f.dir \in {"OUT", "IO"}
\* mcu: [id, name, desc, proto, mV, rate]
Mcu(f) == /\ IdOk(f.id) /\ NameOk(f.name) /\ f.desc # <<>> /\ All(f.desc, TextOk) /\ f.proto \in {"SWD", "SBW", "JTAG", "UART"}
          /\ f.mV \in 1000 .. 5000 /\ f.rate \in 1 .. 1000000
\* target: [id, name, desc, tbid, mcus: sequence of "known" | "other-case" | "full" | "unknown"]
Target(f) == /\ IdOk(f.id) /\ NameOk(f.name) /\ f.desc # <<>> /\ All(f.desc, TextOk)
             /\ All(f.tbid, LAMBDA t : t \in 0 .. 65535) /\ f.mcus # <<>> /\ All(f.mcus, LAMBDA m : m # "unknown")
TestbedId(f) == IF f.tbid # <<>> THEN f.tbid[1] ELSE f.id % 65536
\* observer: [id, name, desc, mac, ip: BOOLEAN, lat, lon, cape, ta, tb: BOOLEAN]
Observer(f) == /\ IdOk(f.id) /\ NameOk(f.name) /\ f.desc # <<>> /\ All(f.desc, TextOk) /\ f.mac /\ f.ip
               /\ f.lat \in -90000 .. 90000 /\ f.lon \in -180000 .. 180000
               /\ (f.ta \/ f.tb => f.cape)
\* energy environment: [name, desc, group, all: BOOLEAN, type, dur, ws, extra: BOOLEAN]
Env(f) == /\ NameOk(f.name) /\ All(f.desc, TextOk) /\ f.type \in {"ivsample", "ivcurve", "isc_voc"} /\ f.dur > 0 /\ f.ws > 0
          /\ (f.group \/ f.all => f.desc # <<>>) /\ ~f.extra
\* user: [name, mail: BOOLEAN, token: optional]
User(f) == NameOk(f.name) /\ f.mail
Password(n) == n \in 20 .. 100
Admitted(k, f) == CASE k = "gpio" -> Gpio(f) [] k = "mcu" -> Mcu(f) [] k = "target" -> Target(f)
                    [] k = "observer" -> Observer(f) [] k = "env" -> Env(f) [] k = "user" -> User(f)
=============================================================================
