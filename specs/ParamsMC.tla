------------------------------ MODULE ParamsMC ------------------------------
(* Laws of the parameters over boundary values of all configuration fields,    *)
(* and the same configurations as input for the real code.                      *)
EXTENDS Params, TLC, Json
CONSTANTS Algs, Big2
VARIABLES h, r
vars == <<h, r>>
Times == IF Big2 THEN {10, 160, 4000, 1000000000} ELSE {10, 1000000000}
Cfgs == {[alg |-> a, samples |-> n, v |-> v[2], vmin |-> v[1], vmax |-> v[3], climit |-> 50000000, step |-> st, set1024 |-> sp,
          interval |-> i, duration |-> d, rising |-> up, linear |-> ~up, wait |-> w] :
           a \in Algs, n \in {8, 2000}, v \in {<<0, 2500000, 5000000>>, <<100000, 100000, 107000>>, <<0, 5000000, 4000000>>, <<3000, 2000, 3000>>, <<4000, 4000, 4000>>},
           st \in {-1, 1000, 999, 70000}, sp \in IF Big2 THEN {0, 2, 1024} ELSE {1024}, i \in Times, d \in Times, up \in IF Big2 THEN BOOLEAN ELSE {TRUE}, w \in IF Big2 THEN {0, 1, 100} ELSE {0, 100}}
Reqs == {[emu |-> m, dtype |-> d, window |-> w, step |-> s] : m \in BOOLEAN, d \in {"ivsample", "ivcurve", "isc_voc"}, w \in IF Big2 THEN {-1, 0, 16} ELSE {-1, 16}, s \in {-1, 5000}}
Init == h \in Cfgs /\ r \in Reqs
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
Ok == HrvAdmissible(h) /\ RequestOk(h, r)
X == HrvExact(h, r)
IntervalCoversDuration == Ok => X.interval_n >= X.duration_n /\ X.duration_n >= 1
Timing == Ok => X.interval_n >= (1 + h.wait) * (IF r.emu THEN h.samples ELSE 1) \/ IntervalUs(h, r) = 1000000000
Limits == Ok => X.setpoint_n8 \in 0 .. 255 /\ X.voltage_min_uV <= X.voltage_uV /\ X.voltage_uV <= X.voltage_max_uV
Adapted == Ok /\ r.emu /\ r.dtype = "ivcurve" => X.window_size = r.window
EmuOnly == Ok => (X.hrv_mode % 2 = 1) = r.emu
Sampled == Ok /\ r.emu /\ r.dtype = "ivsample" /\ r.window < 0 => X.window_size = 0
GInit == Init /\ PrintT("GEN|" \o ToJson([h |-> h, r |-> r]))
GSpec == GInit /\ [][FALSE]_vars
=============================================================================
