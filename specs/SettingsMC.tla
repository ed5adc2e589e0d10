----------------------------- MODULE SettingsMC -----------------------------
(* A source gets adjusted step by step: whatever is admitted stays in limits,  *)
(* fits the registers and can be undone.                                        *)
EXTENDS Settings, TLC, Json
CONSTANTS Wide, MaxSteps
VARIABLES cfg, steps
vars == <<cfg, steps>>
Few  == {"C_intermediate_uF", "LUT_input_I_min_log2_nA", "I_intermediate_leak_nA", "V_output_mV"}
Adjusted == IF Wide THEN DOMAIN Num ELSE Few
Probe(f) == IF f \in DOMAIN Num THEN {Num[f][1] - 1, Num[f][1], Num[f][1] + 1, Num[f][2] - 1, Num[f][2], Num[f][2] + 1} ELSE {0, 1}
Init == cfg = Fresh /\ steps = 0
Adjust == /\ steps < MaxSteps /\ steps' = steps + 1
          /\ \E f \in Adjusted : \E n \in Probe(f) :
                /\ SrcOk([set |-> << <<f, n>> >>, lutin |-> <<>>, lutout |-> <<>>, alg |-> "cv"])
                /\ cfg' = Applied(cfg, << <<f, n>> >>)
Limits  == \A f \in Fields : InLim(f, cfg[f])
Fits    == \A f \in DOMAIN Num : FitsReg(f, cfg[f])
OneStep == [][\E f \in Fields : \A x \in Fields \ {f} : cfg'[x] = cfg[x]]_vars
(* ---- requests for the code *)
NoLut == [lutin |-> <<>>, lutout |-> <<>>]
Src(set, i, o, alg) == [kind |-> "src", p |-> [set |-> set, lutin |-> i, lutout |-> o, alg |-> alg]]
L(rows, cols, e, odd, at) == << [rows |-> rows, cols |-> cols, e |-> e, odd |-> odd, at |-> at] >>
Singles == {Src(<< <<f, n>> >>, <<>>, <<>>, "cv") : f \in DOMAIN Num, n \in {0}} \union UNION {{Src(<< <<f, n>> >>, <<>>, <<>>, "mppt_opt") : n \in Probe(f)} : f \in Fields}
Luts == {Src(<<>>, L(r, c, 1000, o, at), <<>>, "cv") : r \in {0, 11, 12, 13}, c \in {11, 12, 13}, o \in {-1, 0, 500, 1000, 1001}, at \in {0, 70, 143}}
        \union {Src(<<>>, <<>>, L(12, c, 900, o, at), "cv") : c \in {0, 1, 11, 12, 13}, o \in {-1, 0, 1000, 1001}, at \in {0, 6, 11}}
Algs == {Src(<<>>, <<>>, <<>>, a) : a \in {"neutral", "isc_voc", "ivcurve", "cv", "mppt_voc", "mppt_po", "mppt_opt"}}
T(n, c) == [n |-> n, c |-> c]
Tx == {T(1, "plain"), T(32, "plain"), T(33, "plain"), T(0, "plain"), T(6, "reserved")}
Ds == {<<>>, <<T(1, "plain")>>, <<T(512, "reserved")>>, <<T(513, "plain")>>, <<T(0, "plain")>>, <<T(7, "accent")>>, <<T(7, "tab")>>}
Capes == {[kind |-> "cape", p |-> [id |-> i, name |-> n, version |-> v, desc |-> d, comment |-> c, made |-> m]]
            : i \in {-1, 0, 5}, n \in {T(4, "plain")}, v \in Tx, d \in Ds, c \in {<<>>, <<T(9, "reserved")>>, <<T(513, "plain")>>}, m \in {"none", "date", "datetime", "junk"}}
         \union {[kind |-> "cape", p |-> [id |-> 3, name |-> n, version |-> T(3, "plain"), desc |-> <<T(3, "plain")>>, comment |-> <<>>, made |-> "none"]] : n \in Tx}
EF == DOMAIN EepromMax
Eeproms == {[kind |-> "eeprom", p |-> [len |-> s \o << <<f, n>> >>]] : s \in {<<>>, << <<"serial_number", 3>> >>}, f \in EF \ {"serial_number"}, n \in {0, 1, 2, 3, 4, 5, 12, 13, 16, 17, 32, 33}}
           \union {[kind |-> "eeprom", p |-> [len |-> << <<"serial_number", n>> >>]] : n \in {0, 1, 11, 12, 13}} \union {[kind |-> "eeprom", p |-> [len |-> <<>>]]}
Vals == {"neg", "zero", "pos", "tiny", "huge", "nan", "inf", "-inf"}
Pairs == {[kind |-> "pair", p |-> [gain |-> a, offset |-> b]] : a \in Vals \union {"none"}, b \in Vals \union {"none"}}
Regs == {"algorithm", "hrv_mode", "window_size", "voltage_uV", "voltage_min_uV", "voltage_max_uV", "voltage_step_uV", "current_limit_nA", "setpoint_n8", "interval_n", "duration_n", "wait_cycles_n",
         "converter_mode", "interval_startup_delay_drain_n", "V_input_max_uV", "I_input_max_nA", "V_input_drop_uV", "R_input_kOhm_n22", "Constant_us_per_nF_n28", "V_intermediate_init_uV",
         "I_intermediate_leak_nA", "V_enable_output_threshold_uV", "V_disable_output_threshold_uV", "dV_enable_output_uV", "interval_check_thresholds_n", "V_pwr_good_enable_threshold_uV",
         "V_pwr_good_disable_threshold_uV", "immediate_pwr_good_signal", "V_output_log_gpio_threshold_uV", "V_input_boost_threshold_uV", "V_intermediate_max_uV", "V_output_uV", "V_buck_drop_uV",
         "LUT_input_V_min_log2_uV", "LUT_input_I_min_log2_nA", "LUT_output_I_min_log2_nA", "LUT_inp_efficiency_n8", "LUT_out_inv_efficiency_n4"}
RegR == {[kind |-> "reg", p |-> [reg |-> r, value |-> v, n |-> 12]] : r \in Regs, v \in {"neg", "zero", "one", "max8", "over8", "max32", "over32", "half"}}
        \union {[kind |-> "reg", p |-> [reg |-> r, value |-> "one", n |-> n]] : r \in {"LUT_inp_efficiency_n8", "LUT_out_inv_efficiency_n4"}, n \in {0, 11, 13}}
Lists == {[kind |-> "list", p |-> [list |-> x, n |-> n, elem |-> e]] : x \in {"targets", "custom", "delays"}, n \in {0, 1, 2, 127, 128, 129}, e \in {"ok", "below"}}
         \union {[kind |-> "list", p |-> [list |-> x, n |-> n, elem |-> "ok"]] : x \in {"tasks", "observers"}, n \in {0, 1, 2, 128, 129}}
         \union {[kind |-> "list", p |-> [list |-> x, n |-> n, elem |-> "ok"]] : x \in {"inventories", "points"}, n \in {0, 1, 2, 3, 200}}
         \union {[kind |-> "list", p |-> [list |-> "configs", n |-> n, elem |-> "ok"]] : n \in {0, 1, 2}}
         \union {[kind |-> "list", p |-> [list |-> x, n |-> n, elem |-> e]] : x \in {"custom", "points"}, n \in {2, 3}, e \in {"above", "below"}}
Requests == Singles \union Luts \union Algs \union Capes \union Eeproms \union Pairs \union RegR \union Lists
VARIABLE g
GInit == Init /\ g \in Requests /\ PrintT("GEN|" \o ToJson(g))
GSpec == GInit /\ [][FALSE]_<<g, vars>>
MSpec == (Init /\ g = 0) /\ [][Adjust /\ g' = g]_<<g, vars>>
=============================================================================
