------------------------------- MODULE Lexer -------------------------------
(***************************************************************************)
(* Source text to tokens.  A text is a sequence of code points; positions  *)
(* are (line from 1, column from 0) with columns counted in user-perceived *)
(* characters.  The two dialects differ only in what separates tokens:     *)
(*   "asm"  white space, ";" comments anywhere, "*" comments in column one *)
(*   "cpp"  white space, "//" and "/* */" comments (C headers).            *)
(***************************************************************************)
EXTENDS Util

WS == (9..13) \cup {32, 133, 160, 5760, 8232, 8233, 8239, 8287, 12288} \cup (8192..8202)
Extend == (768..879) \cup {8205, 65039}

IsAlpha(ch) == (ch >= 97 /\ ch <= 122) \/ (ch >= 65 /\ ch <= 90)
IdStart(ch) == IsAlpha(ch) \/ ch = 95 \/ ch = 46
IdChar(ch)  == IdStart(ch) \/ ch = 36 \/ (ch >= 48 /\ ch <= 57)
DigitVal(ch) == IF ch >= 48 /\ ch <= 57 THEN ch - 48
                ELSE IF ch >= 97 /\ ch <= 102 THEN ch - 87
                ELSE IF ch >= 65 /\ ch <= 70 THEN ch - 55
                ELSE 99
At(src, i) == IF i <= Len(src) THEN src[i] ELSE -1
CrLf(src, i) == At(src, i) = 13 /\ At(src, i + 1) = 10

\* Position after moving from (i,l,c) to index j.
RECURSIVE Adv(_, _, _, _, _)
Adv(src, i, j, l, c) ==
  IF i >= j THEN <<l, c>>
  ELSE IF src[i] = 10 THEN Adv(src, i + 1, j, l + 1, 0)
  ELSE IF CrLf(src, i) THEN Adv(src, i + 2, j, l + 1, 0)
  ELSE IF src[i] \in Extend THEN Adv(src, i + 1, j, l, c)
  ELSE Adv(src, i + 1, j, l, c + 1)

RECURSIVE EolIdx(_, _)
EolIdx(src, i) == IF i > Len(src) \/ At(src, i) = 10 \/ CrLf(src, i) THEN i ELSE EolIdx(src, i + 1)
RECURSIVE EndOfBlock(_, _)
EndOfBlock(src, i) == IF i > Len(src) THEN i
                      ELSE IF src[i] = 42 /\ At(src, i + 1) = 47 THEN i + 2
                      ELSE EndOfBlock(src, i + 1)

\* Where the comment that starts at index i ends, or 0 if none does.
CommentEnd(src, i, m) ==
  LET ch == src[i] IN
  IF m = "asm" THEN IF ch = 59 \/ (ch = 42 /\ (i = 1 \/ src[i - 1] = 10)) THEN EolIdx(src, i) ELSE 0
  ELSE IF ch # 47 THEN 0
  ELSE IF At(src, i + 1) = 47 THEN EolIdx(src, i)
  ELSE IF At(src, i + 1) = 42 THEN EndOfBlock(src, i + 2)
  ELSE 0

RECURSIVE IdEnd(_, _)
IdEnd(src, i) == IF i <= Len(src) /\ IdChar(src[i]) THEN IdEnd(src, i + 1) ELSE i

\* End of a digit run in the given radix: digits, with single ' between them.
RECURSIVE DigEnd(_, _, _)
DigEnd(src, i, r) ==
  IF i > Len(src) THEN i
  ELSE IF DigitVal(src[i]) < r THEN DigEnd(src, i + 1, r)
  ELSE IF src[i] = 39 /\ i < Len(src) /\ DigitVal(src[i + 1]) < r THEN DigEnd(src, i + 2, r)
  ELSE i
HasDigit(src, i, r) == i <= Len(src) /\ DigitVal(src[i]) < r

\* Value of the digit run src[i..j-1], or -1 when it exceeds 31 bits.
RECURSIVE NumVal(_, _, _, _, _)
NumVal(src, i, j, r, v) ==
  IF i >= j THEN v
  ELSE IF src[i] = 39 THEN NumVal(src, i + 1, j, r, v)
  ELSE LET d == DigitVal(src[i]) IN
       IF v > (MaxI - d) \div r THEN -1 ELSE NumVal(src, i + 1, j, r, v * r + d)

\* Index after the closing quote of the string that opens at i-1, or 0.
RECURSIVE StrEnd(_, _)
StrEnd(src, i) ==
  IF i > Len(src) THEN 0
  ELSE IF src[i] = 34 THEN i + 1
  ELSE IF src[i] = 92 THEN (IF i + 1 > Len(src) \/ src[i + 1] = 10 THEN 0 ELSE StrEnd(src, i + 2))
  ELSE StrEnd(src, i + 1)
Escape(ch) == CASE ch = 114 -> 13 [] ch = 110 -> 10 [] ch = 116 -> 9
                [] ch = 98 -> 8 [] ch = 48 -> 0 [] OTHER -> ch
RECURSIVE StrVal(_, _, _)
StrVal(src, i, j) == IF i >= j THEN <<>>
                     ELSE IF src[i] = 92 THEN <<Escape(src[i + 1])>> \o StrVal(src, i + 2, j)
                     ELSE <<src[i]>> \o StrVal(src, i + 1, j)

Punct == [ch \in {40, 41, 35, 44, 61, 43, 42, 45, 47, 38, 124, 94, 62, 60} |->
           CASE ch = 40 -> "(" [] ch = 41 -> ")" [] ch = 35 -> "#" [] ch = 44 -> ","
             [] ch = 61 -> "=" [] ch = 43 -> "+" [] ch = 42 -> "*" [] ch = 45 -> "-"
             [] ch = 47 -> "/" [] ch = 38 -> "&" [] ch = 124 -> "|" [] ch = 94 -> "^"
             [] ch = 62 -> ">" [] ch = 60 -> "<"]

Number(src, i, r, pre) ==
  LET j == DigEnd(src, i + pre, r)
      v == NumVal(src, i + pre, j, r, 0)
  IN [k |-> IF v < 0 THEN "bad" ELSE "num", v |-> v, j |-> j]

\* The token that starts at index i: [k, v, j], j the index after it.
Match(src, i) ==
  LET ch == src[i]
      n1 == At(src, i + 1)
  IN
  IF ch = 37 THEN
     IF n1 # -1 /\ IdStart(n1)
     THEN LET j == IdEnd(src, i + 1) IN [k |-> "marg", v |-> LowStr(src, i, j), j |-> j]
     ELSE IF HasDigit(src, i + 1, 2) THEN Number(src, i, 2, 1)
     ELSE [k |-> "bad", v |-> 0, j |-> i]
  ELSE IF IdStart(ch) THEN
     LET j == IdEnd(src, i) IN
     IF At(src, j) = 37 THEN [k |-> "mlab", v |-> LowStr(src, i, j + 1), j |-> j + 1]
     ELSE [k |-> "name", v |-> LowStr(src, i, j), j |-> j]
  ELSE IF ch = 58 THEN
     IF n1 = 58 THEN [k |-> "::", v |-> 0, j |-> i + 2] ELSE [k |-> ":", v |-> 0, j |-> i + 1]
  ELSE IF ch \in DOMAIN Punct THEN [k |-> Punct[ch], v |-> 0, j |-> i + 1]
  ELSE IF ch = 34 THEN
     LET j == StrEnd(src, i + 1) IN
     IF j = 0 THEN [k |-> "bad", v |-> 0, j |-> i]
     ELSE [k |-> "str", v |-> StrVal(src, i + 1, j - 1), j |-> j]
  ELSE IF ch = 64 /\ n1 \in {82, 114} /\ At(src, i + 2) \in 48..51
     THEN [k |-> "ri", v |-> src[i + 2] - 48, j |-> i + 3]
  ELSE IF ch = 36 /\ HasDigit(src, i + 1, 16) THEN Number(src, i, 16, 1)
  ELSE IF ch = 48 /\ n1 \in {111, 79} /\ HasDigit(src, i + 2, 8) THEN Number(src, i, 8, 2)
  ELSE IF ch = 48 /\ n1 \in {120, 88} /\ HasDigit(src, i + 2, 16) THEN Number(src, i, 16, 2)
  ELSE IF ch = 48 /\ n1 \in {98, 66} /\ HasDigit(src, i + 2, 2) THEN Number(src, i, 2, 2)
  ELSE IF ch >= 48 /\ ch <= 57 THEN Number(src, i, 10, 0)
  ELSE [k |-> "bad", v |-> 0, j |-> i]

(***************************************************************************)
(* Spans: file f, start line l and column c, end line el and column ec,    *)
(* and par, the chain of macro calls the construct was expanded from.      *)
(***************************************************************************)
Span(f, l, c, el, ec) == [f |-> f, l |-> l, c |-> c, el |-> el, ec |-> ec, par |-> <<>>]
Point(f, l, c) == Span(f, l, c, l, c)
Join(a, b) == [f |-> a.f, l |-> a.l, c |-> a.c, el |-> b.el, ec |-> b.ec, par |-> <<>>]
StartOf(a) == Point(a.f, a.l, a.c)
WithParent(a, p) == [a EXCEPT !.par = <<p>>]

Token(k, v, sp) == [k |-> k, v |-> v, sp |-> sp]

\* Lexing moves over the text: a is [i, l, c (where it is), toks, bad, end
\* (where the last token ended)].  The end of a file is where its last token ends.
LexAt(src, f, m, a) ==
  LET i == a.i  ch == src[i] IN
  IF ch = 32 THEN [a EXCEPT !.i = @ + 1, !.c = @ + 1]
  ELSE IF ch = 10 THEN [a EXCEPT !.i = @ + 1, !.l = @ + 1, !.c = 0]
  ELSE IF CrLf(src, i) THEN [a EXCEPT !.i = @ + 2, !.l = @ + 1, !.c = 0]
  ELSE IF ch \in WS THEN [a EXCEPT !.i = @ + 1, !.c = @ + 1]
  ELSE LET e == CommentEnd(src, i, m) IN
    IF e # 0 THEN LET p == Adv(src, i, e, a.l, a.c) IN [a EXCEPT !.i = e, !.l = p[1], !.c = p[2]]
    ELSE LET t == Match(src, i) IN
      IF t.k = "bad" THEN [a EXCEPT !.bad = TRUE]
      ELSE LET p == IF t.k = "str" THEN Adv(src, i, t.j, a.l, a.c) ELSE <<a.l, a.c + (t.j - i)>>
           IN [i |-> t.j, l |-> p[1], c |-> p[2], bad |-> FALSE, end |-> p,
               toks |-> Append(a.toks, Token(t.k, t.v, Span(f, a.l, a.c, p[1], p[2])))]
Lex(src, f, m) ==
  LET a == FoldLeft(LAMBDA x, k : IF x.bad \/ k < x.i THEN x ELSE LexAt(src, f, m, x),
                    [i |-> 1, l |-> 1, c |-> 0, toks |-> <<>>, bad |-> FALSE, end |-> <<1, 0>>], Ints(1, Len(src)))
  IN IF a.bad THEN [ok |-> FALSE, at |-> Point(f, a.l, a.c)]
     ELSE [ok |-> TRUE, toks |-> Append(a.toks, Token("eof", 0, Point(f, a.end[1], a.end[2])))]

(***************************************************************************)
(* Logical lines: tokens that start on the line where the first one ends;  *)
(* the end of a file always ends a line.                                   *)
(***************************************************************************)
Continues(line, t) == /\ LET z == line[Len(line)] IN z.k # "eof"
                      /\ t.sp.l = line[1].sp.el /\ t.sp.f = line[1].sp.f
Lines(toks) ==
  IF toks = <<>> THEN <<>>
  ELSE LET a == FoldLeft(LAMBDA x, t : IF Continues(x.line, t) THEN [x EXCEPT !.line = Append(@, t)]
                                       ELSE [line |-> <<t>>, done |-> Append(x.done, x.line)],
                         [line |-> <<toks[1]>>, done |-> <<>>], Tail(toks))
       IN Append(a.done, a.line)
=============================================================================
