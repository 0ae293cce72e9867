------------------------------- MODULE Codes -------------------------------
(***************************************************************************)
(* The instruction table by itself.  TLC writes down every instruction     *)
(* byte by byte and checks that decoding and encoding are inverse, that a  *)
(* decoded operand is one the assembler accepts at that address, and that  *)
(* it is encoded to the same bits again.                                   *)
(***************************************************************************)
EXTENDS Isa, TLC
CONSTANTS Thirds, Ends                \* third bytes; addresses after the instruction
VARIABLES b, f                        \* the bytes so far, and the form they belong to
CodesInit == b = <<>> /\ f = 0
CodesNext == /\ IF b = <<>> THEN TRUE ELSE Len(b) < Size(f)
             /\ \E x \in IF Len(b) < 2 THEN 0..255 ELSE Thirds :
                  b' = Append(b, x) /\ f' = IF b = <<>> THEN FormFor[x] ELSE f

Whole == b # <<>> /\ Len(b) = Size(f)
\* A branch that leaves the address space cannot be written as source text.
Writes(v) == \A next \in Ends : \A a \in 1..Len(v) :
  LET k == Forms[f].args[a]  x == TargetOf(k, v[a], next) IN
  (k \in Targets => x \in 0..65535) => FitsField(k, x, next) /\ FieldVal(k, x, next) = v[a]
Good == Whole => LET v == TLCEval(FieldsOf(f, b)) IN Encode(f, v) = b /\ Writes(v)
Sound == b = <<>> => EveryByteDecodes
=============================================================================
