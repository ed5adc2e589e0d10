--------------------------- MODULE RecordingTrace ---------------------------
EXTENDS Recording, TraceData, TLC

VARIABLES tid, l, st, vd

Rng(s) == {s[i] : i \in 1 .. Len(s)}
Chk(name, b) == IF b THEN {} ELSE {name}

RInit(i) == [files |-> <<>>, ses |-> [h \in 1 .. 3 |-> NoSes]]

\* directory listing and "changed since the last event" observations
DirOk(st2, o) == Chk("directory", Rng(o.dir) = DOMAIN st2.files)
UntouchedOk(s, o, allowed) ==
  Chk("untouched-files", Rng(o.changed) \subseteq (allowed \union {s.ses[h].file : h \in DOMAIN s.ses}))

Res(s, b, e) == [st |-> s, bad |-> b, exp |-> e]

OpenStep(s, e) ==
  LET o == e.obs
      ok == o.res = "ok"
      want == OpenAllowed(s, e)
  IN
  IF want # ok THEN Res(s, {"open-admission"}, want)
  ELSE IF want
  THEN IF ~TargetOk(s, e, o.file) THEN Res(s, {"open-target"}, "existing file or wrong name")
       ELSE LET s2 == DoOpen(s, e.h, e, o.file)
            IN Res(s2, DirOk(s2, o) \union UntouchedOk(s, o, {o.file}), s2)
  ELSE \* refused: no recording changes (an explicit overwrite has given its target up).
       \* the driver removes the remains of refused creations (o.removed)
       LET s2 == IF ~e.modify /\ e.force /\ e.name \in Rng(o.removed) /\ Exists(s, e.name)
                 THEN DropFile(s, e.name) ELSE s
           mayGo == IF ~e.modify /\ e.force /\ Exists(s, e.name) THEN {e.name} ELSE {}
       IN Res(s2, DirOk(s2, o)
                  \union Chk("refused-open-removed", (Rng(o.removed) \intersect DOMAIN s.files) \subseteq mayGo)
                  \union UntouchedOk(s, o, IF e.modify \/ e.force THEN {e.name} ELSE {}), "refused")

AppendStep(s, e) ==
  LET o == e.obs  f == s.ses[e.h].file IN
  IF e.tk = "bad"
  THEN Res(s, Chk("append-refuses-bad-timestamp", o.res = "refused")
              \union Chk("refused-append-grew", \A k \in 1 .. 3 : o.rows[k] = Rows(s.files[f]))
              \union DirOk(s, o) \union UntouchedOk(s, o, {f}), Rows(s.files[f]))
  ELSE LET s2 == DoAppend(s, e.h, e) n == Rows(s2.files[f])
       IN Res(s2, Chk("append-accepted", o.res = "ok")
                  \union Chk("equal-column-length", \A k \in 1 .. 3 : o.rows[k] = n)
                  \union DirOk(s2, o) \union UntouchedOk(s, o, {f}), n)

CloseStep(s, e) ==
  LET o == e.obs  f == s.ses[e.h].file  s2 == DoClose(s, e.h) IN
  Res(s2, Chk("close", o.res = "ok") \union Chk("exception-propagates", o.raised = e.exc)
          \union DirOk(s2, o) \union UntouchedOk(s, o, {f}), s2)

InspectStep(s, e) ==
  LET o == e.obs  f == s.files[e.name]  n == Rows(f) IN
  Res(s, Chk("content", o.segs = Content(f.segs))
         \union Chk("equal-column-length", o.lens = <<n, n, n>>)
         \union Chk("mode", o.mode = f.mode) \union Chk("datatype", o.dtype = f.dtype)
         \union Chk("window", o.win = f.win) \union Chk("calibration", o.cal = f.cal)
         \union Chk("hostname", o.host = f.host) \union Chk("config", o.conf = f.conf)
         \union Chk("validity", o.valid = (f.dtype = "ivcurve" => f.win >= 1))
         \union Chk("stats-buffers", o.buffers = n \div BUF)
         \union DirOk(s, o) \union UntouchedOk(s, o, {}), f)

RApply(s, e) ==
  CASE e.op = "open"    -> OpenStep(s, e)
    [] e.op = "append"  -> AppendStep(s, e)
    [] e.op = "close"   -> CloseStep(s, e)
    [] e.op = "inspect" -> InspectStep(s, e)
    [] e.op = "stat"    -> LET s2 == DoStat(s, e.h) IN
                           Res(s2, Chk("stat", e.obs.res = "ok") \union DirOk(s2, e.obs)
                                   \union UntouchedOk(s, e.obs, {s.ses[e.h].file}), "ok")
    [] e.op = "host"    -> LET f == s.ses[e.h].file
                               s2 == PutFile(s, f, [s.files[f] EXCEPT !.host = e.val]) IN
                           Res(s2, Chk("store-hostname", e.obs.res = "ok") \union DirOk(s2, e.obs)
                                   \union UntouchedOk(s, e.obs, {f}), "ok")
    [] e.op = "config"  -> LET f == s.ses[e.h].file
                               s2 == PutFile(s, f, [s.files[f] EXCEPT !.conf = e.val]) IN
                           Res(s2, Chk("store-config", e.obs.res = "ok") \union DirOk(s2, e.obs)
                                   \union UntouchedOk(s, e.obs, {f}), "ok")
    [] OTHER -> Res(s, {"unknown-op"}, e.op)

INSTANCE TraceBase WITH InitSt <- RInit, Apply <- RApply
=============================================================================
