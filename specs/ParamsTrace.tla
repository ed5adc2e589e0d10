---------------------------- MODULE ParamsTrace ----------------------------
EXTENDS Params, TraceData, TLC
VARIABLES tid, l, st, vd
Chk(name, b) == IF b THEN {} ELSE {name}
Res(s, b, e) == [st |-> s, bad |-> b, exp |-> e]
PaInit(i) == i
Fields == {"algorithm", "hrv_mode", "window_size", "voltage_uV", "voltage_min_uV", "voltage_max_uV", "current_limit_nA", "setpoint_n8", "interval_n", "duration_n", "wait_cycles_n"}
PaApply(s, e) ==
  CASE e.op = "hrv" -> Res(s, Chk("admission", e.obs.ok = HrvAdmissible(e.h)), HrvAdmissible(e.h))
    [] e.op = "hrv_params" ->
         IF ~HrvAdmissible(e.h) THEN Res(s, {"unexpected-model"}, <<>>)
         ELSE IF ~RequestOk(e.h, e.r) THEN Res(s, Chk("refused", ~e.obs.ok), FALSE)
         ELSE IF ~e.obs.ok THEN Res(s, {"accepted"}, TRUE)
         ELSE LET x == HrvExact(e.h, e.r) IN
              Res(s, {f \in Fields : x[f] # e.obs.reg[f]} \union Chk("voltage_step_uV", HrvStepOk(e.h, e.r, e.obs.reg.voltage_step_uV))
                     \union Chk("again", e.obs.again), x)
    [] e.op = "src" -> Res(s, Chk("admission", e.obs.ok = (Yields(e.alg) = "ivsample")), <<>>)
    [] e.op = "src_params" -> Res(s, SrcBad(e.s, e.dtype, e.log, e.obs.reg) \union Chk("again", e.obs.again), <<>>)
    [] OTHER -> Res(s, {"unknown-op"}, e.op)
INSTANCE TraceBase WITH InitSt <- PaInit, Apply <- PaApply
=============================================================================
