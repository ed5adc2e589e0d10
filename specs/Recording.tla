----------------------------- MODULE Recording -----------------------------
(* Recordings on disk and the sessions that write them.                       *)
(*                                                                            *)
(* A recording is an ordered list of segments; each segment is what one       *)
(* append call contributed: n rows, identical in the three columns, with      *)
(* timestamps t0, t0+dt, t0+2dt ...   A session (handle) creates a recording, *)
(* replaces it (force), stores under a fresh name, or continues it (modify).  *)
(* Closing drops the incomplete trailing buffer of full-rate recordings only. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

CONSTANTS BUF,      \* samples per buffer
          DEFIV,    \* default sample interval [ns]
          TOLDIV    \* rounding tolerance of the rate (2 * default rate)

Modes    == {"harvester", "emulator"}
TypesOf(m) == IF m = "harvester" THEN {"ivsample", "ivcurve", "isc_voc"} ELSE {"ivsample"}
AllTypes == {"ivsample", "ivcurve", "isc_voc"}

Abs(x)    == IF x < 0 THEN -x ELSE x
Min2(a, b) == IF a < b THEN a ELSE b

RECURSIVE SumN(_)
SumN(segs) == IF segs = <<>> THEN 0 ELSE Head(segs).n + SumN(Tail(segs))

Rows(f)   == SumN(f.segs)
NonEmpty(segs) == SelectSeq(segs, LAMBDA s : s.n > 0)

FirstT(segs) == NonEmpty(segs)[1].t0
LastT(segs)  == LET q == NonEmpty(segs) k == q[Len(q)] IN k.t0 + (k.n - 1) * k.dt

\* keep only the first m rows
RECURSIVE Take(_, _)
Take(segs, m) ==
  IF segs = <<>> \/ m = 0 THEN <<>>
  ELSE IF Head(segs).n <= m
       THEN <<Head(segs)>> \o Take(Tail(segs), m - Head(segs).n)
       ELSE <<[Head(segs) EXCEPT !.n = m]>>

\* a single row has no interval
Norm(s) == IF s.n = 1 THEN [s EXCEPT !.dt = 0] ELSE s
Content(segs) == LET q == NonEmpty(segs) IN [k \in 1 .. Len(q) |-> Norm(q[k])]

(* what a session knows about the sample rate: recomputed from the first and *)
(* last timestamp whenever time has advanced, else what it knew before       *)
RoundDiv(a, b) ==   \* nearest, ties to even
  LET q == a \div b  r2 == 2 * (a % b)
  IN  IF r2 > b \/ (r2 = b /\ q % 2 = 1) THEN q + 1 ELSE q
Refresh(ses, segs) ==
  LET n == SumN(segs) IN
  IF n = 0 THEN ses
  ELSE LET dur == LastT(segs) - FirstT(segs) IN
       IF dur <= 0 THEN ses
       ELSE [ses EXCEPT !.full = (Abs(DEFIV * (n - 1) - dur) <= dur \div TOLDIV),
                        !.iv = RoundDiv(dur, n - 1)]

\* effective attributes of an open request on an existing file f (or on a new one)
NewFile == [segs |-> <<>>, mode |-> "", dtype |-> "", win |-> 0, cal |-> -1,
            host |-> "", conf |-> -1]

Canon(t) == IF t = "ivsamples" THEN "ivsample" ELSE IF t = "ivcurves" THEN "ivcurve" ELSE t

EffMode(f, a)  == IF a.mode # "" THEN a.mode ELSE IF f.mode # "" THEN f.mode ELSE "harvester"
EffType(f, a)  == IF a.dtype # "" THEN Canon(a.dtype)
                  ELSE IF f.dtype # "" THEN f.dtype ELSE "ivsample"
EffWin(f, a)   == IF a.win >= 0 THEN a.win ELSE f.win
EffCal(f, a)   == IF a.cal >= 0 THEN a.cal ELSE IF f.cal >= 0 THEN f.cal ELSE 0

Admissible(f, a) ==
  /\ a.mode = "" \/ a.mode \in Modes
  /\ a.dtype = "" \/ Canon(a.dtype) \in AllTypes
  /\ EffType(f, a) \in TypesOf(EffMode(f, a))
  /\ (Canon(a.dtype) = "ivcurve" => EffWin(f, a) >= 1)

Opened(f, a) == [f EXCEPT !.mode = EffMode(f, a), !.dtype = EffType(f, a),
                          !.win = EffWin(f, a), !.cal = EffCal(f, a)]

NoSes == [file |-> "", full |-> TRUE, iv |-> DEFIV]

(* rows contributed by one append call and their timestamps *)
AppendRows(a) == IF a.tk = "array" THEN Min2(a.nt, Min2(a.nv, a.nc)) ELSE Min2(a.nv, a.nc)
AppendSeg(ses, a) ==
  [id |-> a.id, n |-> AppendRows(a), t0 |-> a.t0,
   dt |-> IF a.tk = "array" THEN a.dt ELSE ses.iv]

\* what closing leaves behind
Closed(ses, f) ==
  LET s2 == Refresh(ses, f.segs)
      n  == Rows(f)
  IN  IF s2.full THEN [f EXCEPT !.segs = Take(f.segs, (n \div BUF) * BUF)] ELSE f

-----------------------------------------------------------------------------
(* State: files (name -> record), ses (handle -> session)                    *)
Exists(st, name) == name \in DOMAIN st.files
IsOpen(st, name) == \E h \in DOMAIN st.ses : st.ses[h].file = name

PutFile(st, name, f) == [st EXCEPT !.files = [x \in (DOMAIN st.files) \union {name} |->
                                              IF x = name THEN f ELSE st.files[x]]]
DropFile(st, name) == [st EXCEPT !.files = [x \in (DOMAIN st.files) \ {name} |-> st.files[x]]]

\* which file an admissible open may use
TargetOk(st, a, name) ==
  IF a.modify THEN name = a.name /\ Exists(st, name)
  ELSE IF a.force \/ ~Exists(st, a.name) THEN name = a.name
  ELSE ~Exists(st, name)                 \* fresh name, never an existing recording

Base(st, a, name) == IF a.modify THEN st.files[name] ELSE NewFile

OpenAllowed(st, a) ==
  IF a.modify THEN Exists(st, a.name) /\ Admissible(st.files[a.name], a)
  ELSE Admissible(NewFile, a)

DoOpen(st, h, a, name) ==
  LET f   == Opened(Base(st, a, name), a)
      s2  == Refresh([file |-> name, full |-> TRUE, iv |-> DEFIV], f.segs)
      st2 == PutFile(st, name, f)
  IN  [st2 EXCEPT !.ses = [st.ses EXCEPT ![h] = s2]]

DoAppend(st, h, a) ==
  LET ses == st.ses[h] f == st.files[ses.file]
  IN  PutFile(st, ses.file, [f EXCEPT !.segs = Append(f.segs, AppendSeg(ses, a))])

DoStat(st, h) ==
  LET ses == st.ses[h]
  IN  [st EXCEPT !.ses = [st.ses EXCEPT ![h] = Refresh(ses, st.files[ses.file].segs)]]

DoClose(st, h) ==
  LET ses == st.ses[h]
      st2 == PutFile(st, ses.file, Closed(ses, st.files[ses.file]))
  IN  [st2 EXCEPT !.ses = [st.ses EXCEPT ![h] = NoSes]]
=============================================================================
