-------------------------------- MODULE Isa --------------------------------
(***************************************************************************)
(* The LC86K instruction set as a table of documented bit patterns.  A     *)
(* form has a mnemonic m, operand kinds args, the fixed bits of each byte  *)
(* (base), and for each run of operand bits where it goes:                 *)
(*   <<operand, lowest bit, number of bits, byte, shift>>.                 *)
(* Operand kinds: imm (#0..255), d9 (0..511), b3 (0..7), ri (@R0..@R3),    *)
(* r8 / r16 (branch target, encoded relative), a12 / a16 (target).         *)
(***************************************************************************)
EXTENDS Util

LOCAL F(m, args, base, pl) == [m |-> m, args |-> args, base |-> base, pl |-> pl]

\* The three addressing forms of the accumulator operations.
LOCAL ImmF(m, b) == F(m, <<"imm">>, <<b, 0>>, << <<1, 0, 8, 2, 0>> >>)
LOCAL D9F(m, b)  == F(m, <<"d9">>, <<b, 0>>, << <<1, 8, 1, 1, 0>>, <<1, 0, 8, 2, 0>> >>)
LOCAL RiF(m, b)  == F(m, <<"ri">>, <<b>>, << <<1, 0, 2, 1, 0>> >>)
LOCAL NoF(m, b)  == F(m, <<>>, <<b>>, <<>>)
\* Branches relative to the next instruction; 16-bit little-endian form.
LOCAL R8F(m, b)  == F(m, <<"r8">>, <<b, 0>>, << <<1, 0, 8, 2, 0>> >>)
LOCAL R16F(m, b) == F(m, <<"r16">>, <<b, 0, 0>>, << <<1, 0, 8, 2, 0>>, <<1, 8, 8, 3, 0>> >>)
LOCAL A16F(m, b) == F(m, <<"a16">>, <<b, 0, 0>>, << <<1, 8, 8, 2, 0>>, <<1, 0, 8, 3, 0>> >>)
LOCAL A12F(m, b) == F(m, <<"a12">>, <<b, 0>>,
                      << <<1, 11, 1, 1, 4>>, <<1, 8, 3, 1, 0>>, <<1, 0, 8, 2, 0>> >>)
\* Bit operations: d9 with bit 8 in bit 4 of the first byte.
LOCAL BitPl == << <<1, 8, 1, 1, 4>>, <<2, 0, 3, 1, 0>>, <<1, 0, 8, 2, 0>> >>
LOCAL BitF(m, b) == F(m, <<"d9", "b3">>, <<b, 0>>, BitPl)
LOCAL BitBr(m, b) == F(m, <<"d9", "b3", "r8">>, <<b, 0, 0>>, Append(BitPl, <<3, 0, 8, 3, 0>>))
\* Compare and branch.
LOCAL CmpI(m, b) == F(m, <<"imm", "r8">>, <<b, 0, 0>>, << <<1, 0, 8, 2, 0>>, <<2, 0, 8, 3, 0>> >>)
LOCAL CmpD(m, b) == F(m, <<"d9", "r8">>, <<b, 0, 0>>,
                      << <<1, 8, 1, 1, 0>>, <<1, 0, 8, 2, 0>>, <<2, 0, 8, 3, 0>> >>)
LOCAL CmpR(m, b) == F(m, <<"ri", "imm", "r8">>, <<b, 0, 0>>,
                      << <<1, 0, 2, 1, 0>>, <<2, 0, 8, 2, 0>>, <<3, 0, 8, 3, 0>> >>)

Forms == <<
  ImmF("add", 129), D9F("add", 130), RiF("add", 132),
  ImmF("addc", 145), D9F("addc", 146), RiF("addc", 148),
  ImmF("sub", 161), D9F("sub", 162), RiF("sub", 164),
  ImmF("subc", 177), D9F("subc", 178), RiF("subc", 180),
  D9F("inc", 98), RiF("inc", 100),
  D9F("dec", 114), RiF("dec", 116),
  NoF("mul", 48), NoF("div", 64),
  ImmF("and", 225), D9F("and", 226), RiF("and", 228),
  ImmF("or", 209), D9F("or", 210), RiF("or", 212),
  ImmF("xor", 241), D9F("xor", 242), RiF("xor", 244),
  NoF("rol", 224), NoF("rolc", 240), NoF("ror", 192), NoF("rorc", 208),
  D9F("ld", 2), RiF("ld", 4), D9F("st", 18), RiF("st", 20),
  F("mov", <<"imm", "d9">>, <<34, 0, 0>>,
    << <<2, 8, 1, 1, 0>>, <<2, 0, 8, 2, 0>>, <<1, 0, 8, 3, 0>> >>),
  F("mov", <<"imm", "ri">>, <<36, 0>>, << <<2, 0, 2, 1, 0>>, <<1, 0, 8, 2, 0>> >>),
  NoF("ldc", 193),
  D9F("push", 96), D9F("pop", 112),
  D9F("xch", 194), RiF("xch", 196),
  A12F("jmp", 40), A16F("jmpf", 33),
  R8F("br", 1), R16F("brf", 17), R8F("bz", 128), R8F("bnz", 144),
  BitBr("bp", 104), BitBr("bpc", 72), BitBr("bn", 136),
  CmpD("dbnz", 82),
  F("dbnz", <<"ri", "r8">>, <<84, 0>>, << <<1, 0, 2, 1, 0>>, <<2, 0, 8, 2, 0>> >>),
  CmpI("be", 49), CmpD("be", 50), CmpR("be", 52),
  CmpI("bne", 65), CmpD("bne", 66), CmpR("bne", 68),
  A12F("call", 8), A16F("callf", 32), R16F("callr", 16),
  NoF("ret", 160), NoF("reti", 176),
  BitF("clr1", 200), BitF("set1", 232), BitF("not1", 168),
  NoF("nop", 0), NoF("ldf", 80), NoF("stf", 81) >>

Mnemonics == {Forms[i].m : i \in 1..Len(Forms)}
FormsOf == [m \in Mnemonics |-> {i \in 1..Len(Forms) : Forms[i].m = m}]
Size(i) == Len(Forms[i].base)

Pow2 == [i \in 0..16 |-> 2^i]
BitsOf(v, lo, n) == (v \div Pow2[lo]) % Pow2[n]

\* Bytes of form i with operand field values v (displacements may be negative).
Encode(i, v) ==
  LET pl == Forms[i].pl
      Part(b) == FoldLeft(LAMBDA a, p :
                   IF p[4] = b THEN a + BitsOf(v[p[1]], p[2], p[3]) * Pow2[p[5]] ELSE a,
                   Forms[i].base[b], pl)
  IN [b \in 1..Size(i) |-> Part(b)]

\* Bits of the first byte that are not operand bits.
LOCAL Mask(i) == FoldLeft(LAMBDA a, p : IF p[4] = 1 THEN a - (Pow2[p[3]] - 1) * Pow2[p[5]] ELSE a,
                          255, Forms[i].pl)
Matches(i, byte) == (byte & Mask(i)) = Forms[i].base[1]
\* The form that a first byte denotes.
FormFor == [byte \in 0..255 |-> CHOOSE i \in 1..Len(Forms) : Matches(i, byte)]

\* Operand field values held in the bytes of form i.
FieldsOf(i, bytes) ==
  LET pl == Forms[i].pl
      Val(a) == FoldLeft(LAMBDA x, p :
                  IF p[1] = a THEN x + BitsOf(bytes[p[4]], p[5], p[3]) * Pow2[p[2]] ELSE x, 0, pl)
      Signed(a) == LET x == Val(a) k == Forms[i].args[a] IN
                   IF k = "r8" /\ x > 127 THEN x - 256
                   ELSE IF k = "r16" /\ x > 32767 THEN x - 65536 ELSE x
  IN [a \in 1..Len(Forms[i].args) |-> Signed(a)]

(***************************************************************************)
(* Does operand value x fit kind k, for an instruction ending at `next`,   *)
(* and what is then its field value?                                       *)
(***************************************************************************)
FitsField(k, x, next) ==
  CASE k = "imm" -> x \in 0..255
    [] k = "d9"  -> x \in 0..511
    [] k = "b3"  -> x \in 0..7
    [] k = "ri"  -> x \in 0..3
    [] k = "a16" -> x \in 0..65535
    [] k = "a12" -> x \in 0..65535 /\ x \div 4096 = (next \div 4096) % 16
    [] k = "r8"  -> x \in 0..65535 /\ (x - next) \in -128..127
    [] k = "r16" -> x \in 0..65535 /\ (x - next + 1) \in -32768..32767
FieldVal(k, x, next) ==
  CASE k = "a12" -> x % 4096
    [] k = "r8"  -> x - next
    [] k = "r16" -> x - next + 1
    [] OTHER -> x
\* The target denoted by a field value: the inverse of FieldVal.
TargetOf(k, v, next) ==
  CASE k = "a12" -> ((next \div 4096) % 16) * 4096 + v
    [] k = "r8"  -> next + v
    [] k = "r16" -> next + v - 1
    [] OTHER -> v
Targets == {"a12", "a16", "r8", "r16"}

\* Sanity of the table: first bytes partition 0..255, encode and decode invert.
EveryByteDecodes == \A b \in 0..255 : Cardinality({i \in 1..Len(Forms) : Matches(i, b)}) = 1
Samples(k) == CASE k = "imm" -> {0, 1, 2, 4, 8, 16, 32, 64, 85, 128, 170, 254, 255}
               [] k = "d9" -> {0, 1, 2, 4, 8, 16, 32, 64, 85, 128, 170, 255, 256, 257, 341, 510, 511}
               [] k = "b3" -> 0..7
               [] k = "ri" -> 0..3
               [] k = "r8" -> {-128, -127, -86, -1, 0, 1, 64, 85, 127}
               [] k = "r16" -> {-32768, -32767, -21846, -256, -255, -1, 0, 1, 255, 256, 21845, 32767}
               [] k = "a12" -> {0, 1, 255, 256, 257, 1365, 2047, 2048, 2730, 4095}
               [] k = "a16" -> {0, 1, 255, 256, 21845, 32767, 32768, 43690, 65535}
\* Every combination of sample field values for the given operand kinds.
Operands(args) ==
  FoldLeft(LAMBDA acc, k : {Append(v, x) : v \in acc, x \in Samples(k)}, {<<>>}, args)
RoundTrip(i, v) == LET b == Encode(i, v) IN
  /\ \A x \in 1..Len(b) : b[x] \in 0..255
  /\ FormFor[b[1]] = i
  /\ FieldsOf(i, b) = v
TableSound == /\ EveryByteDecodes
              /\ \A i \in 1..Len(Forms) : \A v \in Operands(Forms[i].args) : RoundTrip(i, v)
=============================================================================
