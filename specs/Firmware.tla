------------------------------- MODULE Firmware -------------------------------
(* Firmware on its way from a file into a model, to another place, customised *)
(* with an identifier and turned into hex.                                    *)
(* Content of a file: [base, ov] - a known image plus a set of <<offset, byte>>*)
(* that differ from it. A base is a record                                    *)
(*   [fmt, arch, little, at, syms, hex] with                                  *)
(*   fmt  in "elf", "hex", "other"        arch in "arm", "em_msp430", ""       *)
(*   at   set of <<offset, byte>>: bytes of the image where symbols live       *)
(*   syms set of [name, off] (off = -1: symbol has no bytes in the file)       *)
(*   hex  [min, vec, val]: lowest address, has a reset vector, its value       *)
EXTENDS Integers, FiniteSets, Sequences
CONSTANT BYTE

Byte(b, off) == (CHOOSE x \in b.at : x[1] = off)[2]
Get(b, ov, off) == IF \E x \in ov : x[1] = off THEN (CHOOSE x \in ov : x[1] = off)[2] ELSE Byte(b, off)
Set(b, ov, off, v) == {x \in ov : x[1] # off} \union (IF Byte(b, off) = v THEN {} ELSE {<<off, v>>})

\* ---- symbols are unsigned 16 bit (two bytes) in the byte-order of the target
Known(b, s) == b.fmt = "elf" /\ \E x \in b.syms : x.name = s
Off(b, s) == (CHOOSE x \in b.syms : x.name = s).off
Read(b, ov, s) == IF b.little THEN Get(b, ov, Off(b, s)) + BYTE * Get(b, ov, Off(b, s) + 1)
                              ELSE Get(b, ov, Off(b, s) + 1) + BYTE * Get(b, ov, Off(b, s))
Fits(v) == v >= 0 /\ v < BYTE * BYTE
Patch(b, ov, s, v) == LET lo == v % BYTE
                          hi == v \div BYTE
                          o == Off(b, s) IN
                      Set(b, Set(b, ov, o, IF b.little THEN lo ELSE hi), o + 1, IF b.little THEN hi ELSE lo)
\* a modification goes through if the value fits and the symbol has bytes in the file
Modifies(b, s, v) == Fits(v) /\ Known(b, s) /\ Off(b, s) >= 0

\* ---- detection from the content
LooksMsp(h) == h.min = 16384 /\ h.vec /\ h.val >= 16384 /\ h.val < 65408
TypeOf(b) == CASE b.fmt = "elf" -> "path_elf" [] b.fmt = "hex" -> "path_hex" [] OTHER -> "none"
ArchOf(b) == IF b.fmt = "other" THEN "none" ELSE IF LooksMsp(b.hex) THEN "msp430" ELSE "nrf52"
\* what a model is made for; none: refused
McuOf(b, suffix) ==
  CASE suffix = "hex" -> IF b.fmt # "hex" THEN "none" ELSE IF LooksMsp(b.hex) THEN "MSP430FR" ELSE "nRF52"
    [] OTHER -> IF b.fmt # "elf" THEN "none" ELSE CASE b.arch = "em_msp430" -> (IF LooksMsp(b.hex) THEN "MSP430FR" ELSE "none")
                                               [] b.arch = "arm" -> "nRF52" [] OTHER -> "none"
=============================================================================
