------------------------------ MODULE FirmwareMC ------------------------------
(* Files get modified (in place or as a copy), embedded into models, extracted *)
(* elsewhere, tampered with and compared, in any order.                        *)
EXTENDS Firmware, TLC, Json
CONSTANTS Names, MaxOps
VARIABLES files, models, ops, last
vars == <<files, models, ops, last>>
BaseLE == [fmt |-> "elf", arch |-> "arm", little |-> TRUE, at |-> {<<0, 0>>, <<1, 1>>, <<2, 1>>}, syms |-> {[name |-> "id", off |-> 0], [name |-> "near", off |-> 1], [name |-> "bss", off |-> 0 - 1]}, hex |-> [min |-> 0, vec |-> FALSE, val |-> 0]]
BaseBE == [BaseLE EXCEPT !.little = FALSE]
BaseX == [BaseLE EXCEPT !.fmt = "other", !.syms = {}]
Bases == ("le" :> BaseLE) @@ ("be" :> BaseBE) @@ ("x" :> BaseX)
Nil == [base |-> "", ov |-> {}]
F(b, ov) == [base |-> b, ov |-> ov]
Init == /\ files \in [Names -> {Nil} \union {F(b, {}) : b \in DOMAIN Bases}]
        /\ files["a"] # Nil /\ models = <<>> /\ ops = 0 /\ last = [op |-> "none"]
Busy == ops < MaxOps /\ ops' = ops + 1
Bytes == 0 .. BYTE - 1
Modify(f, s, v, over, t) ==
  LET x == files[f]
      b == Bases[x.base] IN
  /\ Busy /\ x # Nil /\ (over => t = f) /\ (~over => t # f)
  /\ IF Modifies(b, s, v) THEN files' = [files EXCEPT ![t] = F(x.base, Patch(b, x.ov, s, v))] ELSE UNCHANGED files
  /\ last' = [op |-> "modify", f |-> f, s |-> s, v |-> v, t |-> t, did |-> Modifies(b, s, v), old |-> x] /\ UNCHANGED models
Embed(f) == /\ Busy /\ files[f] # Nil /\ Len(models) < 1 /\ models' = Append(models, files[f]) /\ last' = [op |-> "embed"] /\ UNCHANGED files
Extract(t) == /\ Busy /\ models # <<>> /\ files' = [files EXCEPT ![t] = models[1]] /\ last' = [op |-> "extract", t |-> t] /\ UNCHANGED models
Tamper(f) == /\ Busy /\ files[f] # Nil /\ \E o \in 0 .. 2 : \E v \in Bytes : files' = [files EXCEPT ![f] = F(@.base, Set(Bases[@.base], @.ov, o, v))]
             /\ last' = [op |-> "tamper"] /\ UNCHANGED models
Next == \/ \E f, t \in Names : \E s \in {"id", "near", "bss", "nix"} : \E v \in (0 - 1) .. BYTE * BYTE : \E over \in BOOLEAN : Modify(f, s, v, over, t)
        \/ \E f \in Names : Embed(f) \/ Extract(f) \/ Tamper(f)
Spec == Init /\ [][Next]_vars
\* ---- what users rely on
ReadsBack == last.op = "modify" /\ last.did => LET x == files[last.t] IN
               /\ Read(Bases[x.base], x.ov, last.s) = last.v
               /\ LET o == Off(Bases[x.base], last.s) IN \A k \in 0 .. 2 \ {o, o + 1} : Get(Bases[x.base], x.ov, k) = Get(Bases[x.base], last.old.ov, k)
KeepsOriginal == last.op = "modify" /\ last.t # last.f => files[last.f] = last.old
OnlyFitting == last.op = "modify" /\ (last.v < 0 \/ last.v >= BYTE * BYTE \/ last.s \in {"bss", "nix"}) => ~last.did
Delivered == last.op = "extract" => files[last.t] = models[1]
Canonical == \A f \in Names : files[f] # Nil => \A x \in files[f].ov : x[2] # Byte(Bases[files[f].base], x[1]) /\ Cardinality({y \in files[f].ov : y[1] = x[1]}) = 1
\* equal content <=> equal representation (this is what comparing hashes decides)
Same(f, g) == files[f] # Nil /\ files[g] # Nil /\ files[f].base = files[g].base => ((files[f] = files[g]) <=> \A k \in 0 .. 2 : Get(Bases[files[f].base], files[f].ov, k) = Get(Bases[files[g].base], files[g].ov, k))
Identity == \A f, g \in Names : Same(f, g)
\* ---- orders of operations for replay into the code
Steps == {"read", "over", "copy", "bad", "embed", "link", "extract", "tamper", "compare", "hex"}
GInit == /\ files = <<>> /\ ops = 0 /\ last = <<>>
         /\ \E p \in [1 .. MaxOps -> Steps] : models = p /\ PrintT("GEN|" \o ToJson(p))
GSpec == GInit /\ [][FALSE]_vars
=============================================================================
