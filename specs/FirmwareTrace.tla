---------------------------- MODULE FirmwareTrace ----------------------------
EXTENDS Integers, Sequences, FiniteSets, TraceData, TLC
BYTE == 256
INSTANCE Firmware
VARIABLES tid, l, st, vd
Chk(name, b) == IF b THEN {} ELSE {name}
Res(s, b, e) == [st |-> s, bad |-> b, exp |-> e]
S2(q) == {q[k] : k \in DOMAIN q}
Content(f) == [base |-> f.base, ov |-> S2(f.ov)]
Base(b) == [fmt |-> b.fmt, arch |-> b.arch, little |-> b.little, at |-> S2(b.at), syms |-> S2(b.syms), hex |-> b.hex]
Snap(fs) == {[path |-> f.path, base |-> f.base, ov |-> S2(f.ov)] : f \in S2(fs)}
FwInit(i) == [bases |-> [k \in DOMAIN i.bases |-> Base(i.bases[k])], files |-> Snap(i.files), models |-> <<>>, hashes |-> {}]
Has(s, p) == \E f \in s.files : f.path = p
At(s, p) == LET f == CHOOSE f \in s.files : f.path = p IN [base |-> f.base, ov |-> f.ov]
BaseAt(s, p) == s.bases[At(s, p).base]
Put(fs, p, c) == {f \in fs : f.path # p} \union {[path |-> p, base |-> c.base, ov |-> c.ov]}
\* an operation ends in a state of the directory that is known exactly
To(s, fs, o, bad, exp) == Res([s EXCEPT !.files = fs], bad \union Chk("files", Snap(o.files) = fs), <<exp, fs \ Snap(o.files), Snap(o.files) \ fs>>)
\* symbols of any length
RECURSIVE Val(_, _, _, _, _)
Val(b, ov, o, n, k) == IF k = n THEN 0 ELSE
   IF b.little THEN Get(b, ov, o + k) + 256 * Val(b, ov, o, n, k + 1)
               ELSE Get(b, ov, o + n - 1 - k) + 256 * Val(b, ov, o, n, k + 1)
\* hash <=> content
HashFits(hs, c, h) == \A x \in hs : (x.h = h) <=> (x.cont = c)
Hashed(s, c, h) == [s EXCEPT !.hashes = @ \union {[cont |-> c, h |-> h]}]
SfxOf(t) == IF t \in {"hex", "path_hex"} THEN "hex" ELSE "elf"
IsPath(m) == m.path # ""
FwApply(s, e) ==
  CASE e.op = "write" -> Res([s EXCEPT !.files = Put(@, e.path, [base |-> e.base, ov |-> S2(e.ov)])], Chk("files", Snap(e.obs.files) = Put(s.files, e.path, [base |-> e.base, ov |-> S2(e.ov)])), "harness")
    [] e.op = "remove" -> Res([s EXCEPT !.files = {f \in @ : f.path # e.path}], {}, <<>>)
    [] e.op = "read" ->
         LET b == BaseAt(s, e.path)
             k == Known(b, e.sym)
             v == IF ~k THEN 0 - 1 ELSE Val(b, At(s, e.path).ov, Off(b, e.sym), e.len, 0) IN
         IF k /\ Off(b, e.sym) < 0 THEN To(s, s.files, e.obs, Chk("found", e.obs.found), "bss")
         ELSE To(s, s.files, e.obs, Chk("found", e.obs.found = k) \union Chk("no-raise", e.obs.ok) \union Chk("value", e.obs.val = v), v)
    [] e.op = "modify" ->
         LET c == At(s, e.path)
             b == s.bases[c.base]
             did == Modifies(b, e.sym, e.val) IN
         To(s, IF did THEN Put(s.files, e.target, [base |-> c.base, ov |-> Patch(b, c.ov, e.sym, e.val)]) ELSE s.files, e.obs,
            Chk("range", (~Fits(e.val)) = e.obs.raised) \union Chk("returned", e.obs.ret = (IF did THEN e.target ELSE "")), did)
    [] e.op = "embed" ->
         LET c == At(s, e.path)
             want == McuOf(s.bases[c.base], e.sfx)
             m == [type |-> e.obs.type, mcu |-> e.obs.mcu, name |-> e.obs.name, cont |-> c, path |-> IF e.embed THEN "" ELSE e.path, hash |-> e.obs.hash] IN
         IF ~e.obs.ok THEN To(s, s.files, e.obs, Chk("accepts", want = "none"), e.obs.err)
         ELSE To([Hashed(s, c, e.obs.hash) EXCEPT !.models = Append(@, m)], s.files, e.obs,
              Chk("refuses", want # "none") \union Chk("type", e.obs.type = (IF e.embed THEN e.sfx ELSE "path_" \o e.sfx))
              \union Chk("mcu", e.obs.mcu = (IF e.mcu = "" THEN want ELSE e.mcu)) \union Chk("name", e.obs.name = e.name) \union Chk("local", e.obs.local = ~e.embed)
              \union Chk("content", IF e.embed THEN Content(e.obs.cont) = c ELSE e.obs.path = e.path) \union Chk("hash", HashFits(s.hashes, c, e.obs.hash)), want)
    [] e.op = "construct" ->
         LET m == s.models[e.m]
             \* the hash of something else is no hash of this content
             can == e.data = "same" /\ e.hash # "wrong" IN
         IF ~e.obs.ok THEN To(s, s.files, e.obs, Chk("accepts", ~can), e.obs.err)
         ELSE To([s EXCEPT !.models = Append(@, [m EXCEPT !.hash = IF e.hash = "none" THEN "" ELSE @])], s.files, e.obs, Chk("refuses", can), e.data)
    [] e.op = "extract" ->
         LET m == s.models[e.m]
             can == IsPath(m) => Has(s, m.path) IN
         IF ~e.obs.ok THEN To(s, s.files, e.obs, Chk("extracts", ~can), e.obs.err)
         ELSE To(s, Put(s.files, e.want, IF IsPath(m) THEN At(s, m.path) ELSE m.cont), e.obs, Chk("impossible", can) \union Chk("target", e.obs.ret = e.want)
                      \union Chk("reported", m.hash # "" /\ IsPath(m) /\ At(s, m.path) # m.cont => e.obs.warned), e.want)
    [] e.op = "compare" ->
         LET m == s.models[e.m]
             other == e.path # "" /\ Has(s, e.path)
             c == IF other THEN At(s, e.path) ELSE IF IsPath(m) /\ Has(s, m.path) THEN At(s, m.path) ELSE m.cont
             gone == ~other /\ IsPath(m) /\ ~Has(s, m.path) IN
         To(s, s.files, e.obs, Chk("no-raise", e.obs.ok) \union (IF m.hash # "" /\ gone THEN {} ELSE Chk("match", e.obs.match = (m.hash = "" \/ c = m.cont))), c)
    [] e.op = "mod" ->
         LET m == s.models[e.m] IN
         To(s, s.files, e.obs, Chk("no-raise", e.obs.ok) \union Chk("type", e.obs.type = m.type) \union Chk("file", e.obs.file = e.file) \union Chk("id", e.obs.id = e.id)
              \union Chk("content", IF IsPath(m) THEN e.obs.path = m.path ELSE Content(e.obs.cont) = m.cont), m)
    [] e.op = "detect" ->
         LET b == BaseAt(s, e.path)
             elf == b.fmt = "elf"
             hex == b.fmt = "hex"
             msp == LooksMsp(b.hex) IN
         To(s, s.files, e.obs, Chk("type", e.obs.type = TypeOf(b)) \union Chk("is-elf", e.obs.elf = elf) \union Chk("is-hex", e.obs.hex = hex)
             \union Chk("hex-msp", e.obs.hex_msp = (hex /\ msp)) \union Chk("elf-msp", e.obs.elf_msp = (elf /\ msp)) \union Chk("hex-nrf", hex = e.obs.hex_nrf) \union Chk("elf-nrf", elf = e.obs.elf_nrf)
             \union Chk("arch", e.obs.arch = ArchOf(b)), <<TypeOf(b), ArchOf(b)>>)
    [] e.op = "encode" ->
         LET c == At(s, e.path) IN
         To(Hashed(s, c, e.obs.hash), Put(s.files, e.target, c), e.obs, Chk("no-raise", e.obs.ok) \union Chk("hash", HashFits(s.hashes, c, e.obs.hash) /\ e.obs.hash = e.obs.hash64), c)
    [] e.op = "tohex" ->
         LET c == At(s, e.path)
             b == s.bases[c.base] IN
         CASE b.fmt = "elf" -> To(s, Put(s.files, e.target, [base |-> "hex:" \o c.base, ov |-> c.ov]), e.obs, Chk("converts", e.obs.ok) \union Chk("target", e.obs.ret = e.target), c)
           [] b.fmt = "hex" /\ ~e.direct -> To(s, s.files, e.obs, Chk("converts", e.obs.ok) \union Chk("target", e.obs.ret = e.path), c)
           [] OTHER -> To(s, s.files, e.obs, Chk("refuses", ~e.obs.ok), c)
    [] OTHER -> Res(s, {"unknown-op"}, e.op)
INSTANCE TraceBase WITH InitSt <- FwInit, Apply <- FwApply
=============================================================================
