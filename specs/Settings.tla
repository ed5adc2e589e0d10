------------------------------ MODULE Settings ------------------------------
(* Settings of the virtual source, of cape, eeprom and calibration, and the    *)
(* register sets for the real-time units: what is admitted, what the values of *)
(* an admitted one are.  Numbers are integers in units of the field (see U).   *)
EXTENDS Integers, Sequences, FiniteSets
\* field |-> <<lowest, highest, default, units per documented unit>>; documented unit: mV, mA, mOhm, uF, nA, ms
Num == [interval_startup_delay_drain_ms |-> <<0, 10000000, 0, 1000>>,
        V_input_max_mV |-> <<0, 10000000, 10000000, 1000>>, I_input_max_mA |-> <<0, 4290000, 4200000, 1000>>,
        V_input_drop_mV |-> <<0, 429000000, 0, 100>>, R_input_mOhm |-> <<0, 429000000, 0, 100>>,
        C_intermediate_uF |-> <<0, 100000000, 0, 1000>>, V_intermediate_init_mV |-> <<0, 10000000, 3000000, 1000>>,
        I_intermediate_leak_nA |-> <<0, 429000000, 0, -10>>,
        V_intermediate_enable_threshold_mV |-> <<0, 10000000, 1000, 1000>>, V_intermediate_disable_threshold_mV |-> <<0, 10000000, 0, 1000>>,
        interval_check_thresholds_ms |-> <<0, 4290000, 0, 1000>>,
        V_pwr_good_enable_threshold_mV |-> <<0, 10000000, 2800000, 1000>>, V_pwr_good_disable_threshold_mV |-> <<0, 10000000, 2200000, 1000>>,
        C_output_uF |-> <<0, 429000000, 100, 100>>, V_output_log_gpio_threshold_mV |-> <<0, 429000000, 140000, 100>>,
        V_input_boost_threshold_mV |-> <<0, 10000000, 0, 1000>>, V_intermediate_max_mV |-> <<0, 10000000, 10000000, 1000>>,
        LUT_input_V_min_log2_uV |-> <<0, 20, 0, 1>>, LUT_input_I_min_log2_nA |-> <<1, 20, 1, 1>>, LUT_output_I_min_log2_nA |-> <<1, 20, 1, 1>>,
        V_output_mV |-> <<0, 5000000, 2400000, 1000>>, V_buck_drop_mV |-> <<0, 5000000, 0, 1000>>]
Flag == [enable_boost |-> FALSE, enable_buck |-> FALSE, enable_feedback_to_hrv |-> FALSE, immediate_pwr_good_signal |-> TRUE]
Fields == DOMAIN Num \union DOMAIN Flag
InLim(f, n) == IF f \in DOMAIN Num THEN n >= Num[f][1] /\ n <= Num[f][2] ELSE n \in {0, 1}
Default(f)  == IF f \in DOMAIN Num THEN Num[f][3] ELSE IF Flag[f] THEN 1 ELSE 0
\* tables: 12 (x 12) efficiencies of 0 .. 1, given in 1/1000; one odd entry at some place, else e
LutOk(t)    == t.rows = 12 /\ t.cols = 12 /\ t.odd \in 0 .. 1000 /\ t.e \in 0 .. 1000
Emulates(alg) == alg \notin {"isc_voc", "ivcurve"}
\* a request: [set: sequence of <<field, n>>, lut: <<>> or <<table>>, outlut, alg: harvester]
SrcOk(p) == /\ \A i \in DOMAIN p.set : InLim(p.set[i][1], p.set[i][2])
            /\ \A i \in DOMAIN p.lutin : LutOk(p.lutin[i])
            /\ \A i \in DOMAIN p.lutout : LutOk(p.lutout[i])
            /\ Emulates(p.alg)
Applied(cfg, set) == [f \in Fields |-> LET h == {i \in DOMAIN set : set[i][1] = f} IN
                                       IF h = {} THEN cfg[f] ELSE set[CHOOSE i \in h : \A j \in h : j <= i][2]]
Fresh == [f \in Fields |-> Default(f)]
(* ---- boards, calibration, registers *)
NameOk(t)  == t.n \in 1 .. 32 /\ t.c = "plain"
TextOk(t)  == t.n \in 1 .. 512 /\ t.c \in {"plain", "reserved"}
All(o, P(_)) == \A i \in DOMAIN o : P(o[i])
\* cape: [id, name, version, desc, comment (the latter two optional), made: "none" | "date" | "datetime" | "junk"]
Cape(f) == /\ f.id >= 0 /\ NameOk(f.name) /\ NameOk(f.version) /\ f.desc # <<>> /\ All(f.desc, TextOk) /\ All(f.comment, TextOk) /\ f.made # "junk"
\* eeprom: lengths of the texts given
EepromMax == [header |-> 4, eeprom_revision |-> 2, board_name |-> 32, version |-> 4, manufacturer |-> 16, part_number |-> 16, serial_number |-> 12, cal_date |-> 12]
Eeprom(f) == /\ \E i \in DOMAIN f.len : f.len[i][1] = "serial_number"
             /\ \A i \in DOMAIN f.len : f.len[i][2] \in (IF f.len[i][1] = "header" THEN 0 ELSE 1) .. EepromMax[f.len[i][1]]
Finite  == {"neg", "zero", "pos", "tiny", "huge"}
Pair(f) == f.gain \in {"pos", "tiny", "huge"} /\ f.offset \in Finite \union {"none"}
\* registers: which value the one register in question gets
RegMax(r) == IF r = "LUT_inp_efficiency_n8" THEN {"zero", "one", "max8"} ELSE {"zero", "one", "max8", "over8", "max32"}
Reg(f)  == f.value \in RegMax(f.reg) /\ f.n = 12
\* lists: [list, n: how many, elem: "ok" | "below" | "above" the limits of an element]
ListLim == [targets |-> <<1, 128>>, custom |-> <<1, 128>>, delays |-> <<1, 128>>, tasks |-> <<1, 128>>, observers |-> <<1, 128>>,
            points |-> <<2, 1000000>>, inventories |-> <<1, 1000000>>, configs |-> <<1, 128>>]
List(f) == f.n >= ListLim[f.list][1] /\ f.n <= ListLim[f.list][2] /\ (f.elem = "ok" \/ f.n = 0)
(* ---- any model: an instance gets one thing spoiled *)
Spoils == {"none", "unknown", "nan", "inf", "long", "padded"}
Survives(how) == how \in {"none", "padded"}
Admitted(k, f) == CASE k = "cape" -> Cape(f) [] k = "eeprom" -> Eeprom(f) [] k = "pair" -> Pair(f) [] k = "reg" -> Reg(f) [] k = "list" -> List(f)
(* ---- 32 bit suffice for the registers that follow from admitted sources: highest value * factor *)
Factor == [interval_startup_delay_drain_ms |-> 100, interval_check_thresholds_ms |-> 100, I_input_max_mA |-> 1000000, I_intermediate_leak_nA |-> 1,
           R_input_mOhm |-> 5]
FactorOf(f) == IF f \in DOMAIN Factor THEN Factor[f] ELSE IF f \in {"C_intermediate_uF", "C_output_uF", "LUT_input_V_min_log2_uV", "LUT_input_I_min_log2_nA", "LUT_output_I_min_log2_nA"} THEN 1 ELSE 1000
Whole(f, n) == LET u == Num[f][4] IN IF u > 0 THEN n \div u ELSE n * (-u)
\* n * factor < 2^32 without leaving 32 bit
Max31 == 2147483647
FitsReg(f, n) == IF Num[f][4] < 0 THEN n <= Max31 \div 5 ELSE (Whole(f, n) + 2) \div 2 <= Max31 \div FactorOf(f)
=============================================================================
