-------------------------------- MODULE Util --------------------------------
(***************************************************************************)
(* Shared vocabulary of the waterbear specification: characters as code    *)
(* points, names as strings, 32-bit two's-complement arithmetic and byte   *)
(* splitting.                                                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, Bitwise

CharTab ==
  << "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "",
     "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "",
     " ", "!", "\"", "#", "$", "%", "&", "'", "(", ")", "*", "+", ",", "-", ".", "/",
     "0", "1", "2", "3", "4", "5", "6", "7", "8", "9", ":", ";", "<", "=", ">", "?",
     "@", "A", "B", "C", "D", "E", "F", "G", "H", "I", "J", "K", "L", "M", "N", "O",
     "P", "Q", "R", "S", "T", "U", "V", "W", "X", "Y", "Z", "[", "\\", "]", "^", "_",
     "`", "a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o",
     "p", "q", "r", "s", "t", "u", "v", "w", "x", "y", "z", "{", "|", "}", "~", "" >>

LowTab ==
  << "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "",
     "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "",
     " ", "!", "\"", "#", "$", "%", "&", "'", "(", ")", "*", "+", ",", "-", ".", "/",
     "0", "1", "2", "3", "4", "5", "6", "7", "8", "9", ":", ";", "<", "=", ">", "?",
     "@", "a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o",
     "p", "q", "r", "s", "t", "u", "v", "w", "x", "y", "z", "[", "\\", "]", "^", "_",
     "`", "a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o",
     "p", "q", "r", "s", "t", "u", "v", "w", "x", "y", "z", "{", "|", "}", "~", "" >>

\* A printable rendering of one code point; other characters become numbers.
ChrStr(ch) == IF ch >= 32 /\ ch < 127 THEN CharTab[ch + 1] ELSE "<" \o ToString(ch) \o ">"

\* The string that stands for a sequence of code points ...
StrOf(s) == FoldLeft(LAMBDA a, ch : a \o ChrStr(ch), "", s)
\* ... and the lower-cased string spelled by s[i..j-1].
LowStr(s, i, j) == FoldLeft(LAMBDA a, ch : a \o LowTab[ch + 1], "", SubSeq(s, i, j - 1))

------------------------------------------------------------------------------
MaxI == 2147483647
MinI == -2147483647 - 1

\* 32-bit wrapping arithmetic, written so that TLC never leaves 32 bits.
WAdd(a, b) ==
  IF a > 0 /\ b > 0 /\ a > MaxI - b THEN (a + MinI) + (b + MinI)
  ELSE IF a < 0 /\ b < 0 /\ a < MinI - b THEN (a - MinI) + (b - MinI)
  ELSE a + b
WNeg(a) == IF a = MinI THEN MinI ELSE -a
WSub(a, b) == IF b = MinI THEN WAdd(WAdd(a, MaxI), 1) ELSE WAdd(a, -b)
RECURSIVE WMulBits(_, _)
WMulBits(a, b) ==
  IF b = 0 THEN 0
  ELSE IF b = -1 THEN WNeg(a)
  ELSE WAdd(WMulBits(WAdd(a, a), b \div 2), IF b % 2 = 1 THEN a ELSE 0)
Small(a) == a > -46340 /\ a < 46340
WMul(a, b) == IF Small(a) /\ Small(b) THEN a * b ELSE WMulBits(a, b)
\* Division truncating toward zero; the one overflowing quotient wraps.
Abs(a) == IF a < 0 THEN -a ELSE a
WDiv(a, b) ==
  IF b = -1 THEN WNeg(a)
  ELSE IF a = MinI \/ b = MinI
       THEN IF b = MinI THEN (IF a = MinI THEN 1 ELSE 0)
            ELSE \* a = MinI: divide (MinI + |b|) and correct by one
                 IF b > 0 THEN -(Abs(a + b) \div b) - 1 ELSE (Abs(a - b) \div Abs(b)) + 1
       ELSE IF (a < 0) # (b < 0) THEN -(Abs(a) \div Abs(b)) ELSE Abs(a) \div Abs(b)

Low31(a) == IF a < 0 THEN a - MinI ELSE a
WithSign(neg, low) == IF neg THEN low + MinI ELSE low
WAnd(a, b) == WithSign((a < 0) /\ (b < 0), Low31(a) & Low31(b))
WOr(a, b)  == WithSign((a < 0) \/ (b < 0), Low31(a) | Low31(b))
WXor(a, b) == WithSign((a < 0) # (b < 0), Low31(a) ^^ Low31(b))

HiByte(a) == (a \div 256) % 256
LoByte(a) == a % 256
ByteOf(a) == a % 256

------------------------------------------------------------------------------
\* UTF-8 encoding of code points.
Utf8Char(ch) ==
  IF ch < 128 THEN <<ch>>
  ELSE IF ch < 2048 THEN <<192 + (ch \div 64), 128 + (ch % 64)>>
  ELSE IF ch < 65536 THEN <<224 + (ch \div 4096), 128 + ((ch \div 64) % 64), 128 + (ch % 64)>>
  ELSE <<240 + (ch \div 262144), 128 + ((ch \div 4096) % 64), 128 + ((ch \div 64) % 64), 128 + (ch % 64)>>
Utf8(s) == IF \A i \in 1..Len(s) : s[i] < 128 THEN s
           ELSE FoldLeft(LAMBDA a, ch : a \o Utf8Char(ch), <<>>, s)

\* The sequence <<a, a + 1, ..., b>>, and the first number in it that passes a
\* test, or b + 1.
Ints(a, b) == [k \in 1..(b - a + 1) |-> a + k - 1]
FirstIn(a, b, Test(_)) ==
  LET r == FoldLeft(LAMBDA x, k : IF x # 0 THEN x ELSE IF Test(k) THEN k ELSE 0, 0, Ints(a, b))
  IN IF r = 0 THEN (IF b < a THEN a ELSE b + 1) ELSE r

Rep(x, n) == [i \in 1..n |-> x]
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b

\* Splits a code point sequence at a separator.
Split(s, sep) ==
  LET cuts == <<0>> \o SelectSeq(Ints(1, Len(s)), LAMBDA k : s[k] = sep) \o <<Len(s) + 1>>
  IN [k \in 1..(Len(cuts) - 1) |-> SubSeq(s, cuts[k] + 1, cuts[k + 1] - 1)]
=============================================================================
