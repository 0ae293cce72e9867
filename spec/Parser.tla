------------------------------- MODULE Parser -------------------------------
(***************************************************************************)
(* Tokens to statements.  Every parsing operator takes a logical line L    *)
(* and an index i into it and returns a result                             *)
(*   [ok, v (what was parsed), i (next index), err (locations at fault)].  *)
(* Locations are spans; a premature end of a line has no location.         *)
(***************************************************************************)
EXTENDS Lexer, Isa

Good(v, i) == [ok |-> TRUE, v |-> v, i |-> i, err |-> <<>>]
Bad(locs)  == [ok |-> FALSE, v |-> 0, i |-> 0, err |-> locs]

None == [t |-> "none"]
K(L, i) == IF i <= Len(L) THEN L[i].k ELSE "none"
AtEnd(L, i) == K(L, i) \in {"none", "eof"}
\* String tokens that name a picture or data file get their path when spliced.
PathIn(tok) == IF "path" \in DOMAIN tok THEN tok.path ELSE None
NameAt(L, i, n) == K(L, i) = "name" /\ L[i].v = n
IsLocal(n) == SubSeq(n, 1, 1) = "."
\* The error at whatever token is at i: the line may also have run out.
Fault(L, i) == IF i <= Len(L) THEN Bad(<<L[i].sp>>) ELSE Bad(<<>>)

------------------------------------------------------------------------------
\* Expressions, by operator precedence.
InfixPrec == [o \in {"&", "|", "^", "+", "-", "*", "/"} |->
               CASE o \in {"&", "|", "^"} -> 1 [] o \in {"+", "-"} -> 3 [] OTHER -> 4]
PrefixPrec == 6

RECURSIVE Expr(_, _, _), ExprRest(_, _, _, _)
Expr(L, i, prec) ==
  IF i > Len(L) THEN Bad(<<>>)
  ELSE LET t == L[i] IN
    IF t.k = "num" THEN ExprRest(L, i + 1, prec, [t |-> "num", v |-> t.v, sp |-> t.sp])
    ELSE IF t.k \in {"name", "mlab", "marg"}
         THEN ExprRest(L, i + 1, prec, [t |-> t.k, n |-> t.v, sp |-> t.sp])
    ELSE IF t.k = "(" THEN
         LET r == Expr(L, i + 1, 0) IN
         IF ~r.ok THEN r
         ELSE IF K(L, r.i) # ")" THEN Fault(L, r.i)
         ELSE ExprRest(L, r.i + 1, prec, r.v)
    ELSE IF t.k \in {"-", ">", "<"} THEN
         LET r == Expr(L, i + 1, PrefixPrec) IN
         IF ~r.ok THEN r
         ELSE ExprRest(L, r.i, prec, [t |-> "una", op |-> t.k, a |-> r.v, sp |-> t.sp])
    ELSE Bad(<<StartOf(t.sp)>>)
ExprRest(L, i, prec, left) ==
  IF K(L, i) \in DOMAIN InfixPrec /\ InfixPrec[K(L, i)] > prec
  THEN LET o == L[i].k
           r == Expr(L, i + 1, InfixPrec[o])
       IN IF ~r.ok THEN r
          ELSE ExprRest(L, r.i, prec,
                 [t |-> "bin", op |-> o, a |-> left, b |-> r.v, sp |-> Join(left.sp, r.v.sp)])
  ELSE Good(left, i)
ParseExpr(L, i) == Expr(L, i, 0)

------------------------------------------------------------------------------
\* One list item: an operand, an expression, a byte value or a key=value pair.
ParseArg(L, i) ==
  IF K(L, i) = "ri" THEN Good([t |-> "ri", v |-> L[i].v, sp |-> L[i].sp], i + 1)
  ELSE IF K(L, i) = "#" THEN
       LET r == ParseExpr(L, i + 1) IN
       IF ~r.ok THEN r ELSE Good([t |-> "imm", e |-> r.v, sp |-> r.v.sp], r.i)
  ELSE LET r == ParseExpr(L, i) IN
       IF ~r.ok THEN r
       ELSE IF r.v.t = "marg" THEN Good([t |-> "marg", n |-> r.v.n, sp |-> r.v.sp], r.i)
       ELSE Good([t |-> "ex", e |-> r.v, sp |-> r.v.sp], r.i)
ByteVal(L, i) ==
  IF K(L, i) = "str" THEN Good([t |-> "str", v |-> L[i].v, sp |-> L[i].sp, path |-> PathIn(L[i])], i + 1)
  ELSE ParseExpr(L, i)
KeyVal(L, i) ==
  IF K(L, i) # "name" THEN Fault(L, i)
  ELSE IF K(L, i + 1) # "=" THEN Fault(L, i + 1)
  ELSE LET r == ByteVal(L, i + 2) IN
       IF ~r.ok THEN r ELSE Good([key |-> L[i].v, val |-> r.v], r.i)
Item(L, i, what) == CASE what = "arg" -> ParseArg(L, i)
                      [] what = "expr" -> ParseExpr(L, i)
                      [] what = "byte" -> ByteVal(L, i)
                      [] what = "prop" -> KeyVal(L, i)
ParseList(L, i, what) ==
  IF AtEnd(L, i) THEN Good(<<>>, i)
  ELSE LET Append1(a, r) == IF r.ok THEN Good(Append(a.v, r.v), r.i) ELSE r
           More(a, k) == IF ~a.ok \/ k < a.i \/ AtEnd(L, a.i) THEN a
                         ELSE IF K(L, a.i) # "," THEN Fault(L, a.i)
                         ELSE Append1(a, Item(L, a.i + 1, what))
       IN FoldLeft(More, Append1(Good(<<>>, i), Item(L, i, what)), Ints(1, Len(L)))
LastOf(s) == s[Len(s)]

\* name args...: [sp, n, args]
GenInstr(L, i) ==
  IF K(L, i) # "name" THEN Fault(L, i)
  ELSE LET r == ParseList(L, i + 1, "arg") IN
       IF ~r.ok THEN r
       ELSE Good([sp |-> IF r.v = <<>> THEN L[i].sp ELSE Join(L[i].sp, LastOf(r.v).sp),
                  n |-> L[i].v, args |-> r.v], r.i)

\* Chooses the instruction form by operand kinds.
KindFits(a, k) == CASE a.t = "imm" -> k = "imm"
                    [] a.t = "ri" -> k = "ri"
                    [] a.t = "ex" -> k \notin {"imm", "ri"}
                    [] OTHER -> FALSE
MatchingForms(n, args) ==
  {f \in FormsOf[n] : /\ Len(Forms[f].args) = Len(args)
                      /\ \A j \in 1..Len(args) : KindFits(args[j], Forms[f].args[j])}
MakeInstr(sp, n, args) ==
  IF n \notin Mnemonics THEN Bad(<<sp>>)
  ELSE LET c == MatchingForms(n, args) IN
       IF c = {} THEN Bad(<<sp>>)
       ELSE Good([t |-> "instr", sp |-> sp, f |-> CHOOSE f \in c : TRUE, args |-> args], 0)

\* An instruction or macro call; v = None when the line has neither here.
InstrOrCall(L, i) ==
  IF K(L, i) # "name" THEN Good(None, i)
  ELSE IF L[i].v \in Mnemonics THEN
       LET g == GenInstr(L, i) IN
       IF ~g.ok THEN g
       ELSE LET m == MakeInstr(g.v.sp, g.v.n, g.v.args) IN
            IF ~m.ok THEN m ELSE Good(m.v, g.i)
  ELSE IF IsLocal(L[i].v) THEN Good(None, i)
  ELSE LET g == GenInstr(L, i) IN
       IF ~g.ok THEN g
       ELSE Good([t |-> "call", sp |-> g.v.sp, n |-> g.v.n, args |-> g.v.args], g.i)

------------------------------------------------------------------------------
\* Directives.
NumThenString(L, i, typ) ==
  IF K(L, i + 1) # "num" THEN Fault(L, i + 1)
  ELSE IF K(L, i + 2) # "str" THEN Fault(L, i + 2)
  ELSE Good([t |-> typ, sp |-> Join(L[i].sp, L[i + 2].sp), n |-> L[i + 1].v, v |-> L[i + 2].v], i + 3)

\* The last value given for a key, or "none".
RECURSIVE PropFrom(_, _, _)
PropFrom(ps, key, j) == IF j = 0 THEN None
                        ELSE IF ps[j].key = key THEN ps[j].val ELSE PropFrom(ps, key, j - 1)
Prop(ps, key) == PropFrom(ps, key, Len(ps))
Simple == <<115, 105, 109, 112, 108, 101>>
Masked == <<109, 97, 115, 107, 101, 100>>
Yes == <<121, 101, 115>>
No == <<110, 111>>
OneOf(p, allowed) == p.t = "none" \/ (p.t = "str" /\ \E a \in allowed : p.v = a)

Include(L, i) ==
  IF K(L, i + 1) = "str"
  THEN Good([t |-> "include", typ |-> "asm", sp |-> Join(L[i].sp, L[i + 1].sp), pathat |-> i + 1], i + 2)
  ELSE IF NameAt(L, i + 1, "icon") \/ NameAt(L, i + 1, "sprite") THEN
    IF K(L, i + 2) # "str" THEN Fault(L, i + 2)
    ELSE LET r == ParseList(L, i + 3, "prop") IN
      IF ~r.ok THEN r
      ELSE IF L[i + 1].v = "icon" THEN
        LET speed == Prop(r.v, "speed") IN
        IF speed.t = "str" THEN Bad(<<StartOf(speed.sp)>>)
        ELSE Good([t |-> "include", typ |-> "icon", sp |-> L[i + 2].sp, pathat |-> i + 2,
                   path |-> PathIn(L[i + 2]), speed |-> speed, eye |-> Prop(r.v, "eyecatch")], r.i)
      ELSE
        LET typ == Prop(r.v, "type")  hdr == Prop(r.v, "header") IN
        IF ~OneOf(typ, {Simple, Masked}) THEN Bad(<<typ.sp>>)
        ELSE IF ~OneOf(hdr, {Yes, No}) THEN Bad(<<hdr.sp>>)
        ELSE Good([t |-> "include", typ |-> "sprite", sp |-> L[i + 2].sp, pathat |-> i + 2,
                   path |-> PathIn(L[i + 2]),
                   masked |-> typ.t = "str" /\ typ.v = Masked,
                   header |-> hdr.t = "none" \/ hdr.v = Yes], r.i)
  ELSE IF NameAt(L, i + 1, "asm") \/ NameAt(L, i + 1, "bytes") \/ NameAt(L, i + 1, "cpp") THEN
    IF K(L, i + 2) # "str" THEN Fault(L, i + 2)
    ELSE Good([t |-> "include", typ |-> L[i + 1].v, sp |-> Join(L[i].sp, L[i + 2].sp), pathat |-> i + 2,
               path |-> PathIn(L[i + 2])], i + 3)
  ELSE Fault(L, i + 1)

\* v = None when there is no directive at i.
Directive(L, i) ==
  IF K(L, i) # "name" THEN Good(None, i)
  ELSE LET n == L[i].v IN
  IF n \in {".byte", ".word"} THEN
    LET r == IF n = ".byte" THEN ParseList(L, i + 1, "byte") ELSE ParseList(L, i + 1, "expr") IN
    IF ~r.ok THEN r
    ELSE IF r.v = <<>> THEN Bad(<<L[i].sp>>)
    ELSE Good([t |-> IF n = ".byte" THEN "byte" ELSE "word",
               sp |-> Join(L[i].sp, LastOf(r.v).sp), v |-> r.v], r.i)
  ELSE IF n = ".org" THEN
    IF K(L, i + 1) # "num" THEN Fault(L, i + 1)
    ELSE Good([t |-> "org", sp |-> Join(L[i].sp, L[i + 1].sp), n |-> L[i + 1].v], i + 2)
  ELSE IF n = ".text" THEN NumThenString(L, i, "text")
  ELSE IF n = ".string" THEN NumThenString(L, i, "string")
  ELSE IF n = ".include" THEN Include(L, i)
  ELSE IF n = ".cnop" THEN
    LET a == ParseExpr(L, i + 1) IN
    IF ~a.ok THEN a
    ELSE IF K(L, a.i) # "," THEN Fault(L, a.i)
    ELSE LET b == ParseExpr(L, a.i + 1) IN
         IF ~b.ok THEN b
         ELSE Good([t |-> "cnop", sp |-> Join(L[i].sp, b.v.sp), a |-> a.v, m |-> b.v], b.i)
  ELSE Good(None, i)

------------------------------------------------------------------------------
\* Statements.
Label(sp, n) == [t |-> "label", sp |-> sp, n |-> n]
ConstDef(L, i) ==
  LET r == ParseExpr(L, i + 2) IN
  IF ~r.ok THEN r
  ELSE Good([t |-> "const", sp |-> Join(L[i].sp, r.v.sp), n |-> L[i].v, e |-> r.v], r.i)
IsConstOp(L, i) == NameAt(L, i, "equ") \/ K(L, i) = "="

Statement(L, i) ==
  IF K(L, i) = "name" /\ K(L, i + 1) = ":"
  THEN Good(Label(Join(L[i].sp, L[i + 1].sp), L[i].v), i + 2)
  ELSE IF K(L, i) = "name" /\ ~IsLocal(L[i].v) /\ ~IsConstOp(L, i + 1)
  THEN InstrOrCall(L, i)
  ELSE LET d == Directive(L, i) IN
       IF ~d.ok \/ d.v.t # "none" THEN d
       ELSE IF K(L, i) # "name" THEN Fault(L, i)
       ELSE IF IsLocal(L[i].v) /\ AtEnd(L, i + 1) THEN Good(Label(L[i].sp, L[i].v), i + 1)
       ELSE IF IsConstOp(L, i + 1) THEN ConstDef(L, i)
       ELSE Fault(L, i)

\* A whole line: a sequence of one or two statements.
LineStatements(L) ==
  IF AtEnd(L, 1) THEN Good(<<>>, 1)
  ELSE LET s == Statement(L, 1) IN
    IF ~s.ok THEN s
    ELSE IF s.v.t = "label" /\ ~AtEnd(L, s.i) THEN
      LET x == InstrOrCall(L, s.i) IN
      IF ~x.ok THEN x
      ELSE IF x.v.t = "none" THEN Fault(L, s.i)
      ELSE IF ~AtEnd(L, x.i) THEN Fault(L, x.i)
      ELSE Good(<<s.v, x.v>>, x.i)
    ELSE IF ~AtEnd(L, s.i) THEN Fault(L, s.i)
    ELSE Good(<<s.v>>, s.i)

------------------------------------------------------------------------------
\* Macro definitions.
MacroKey(n, arity) == n \o "/" \o ToString(arity)
IsMacroHead(L) == K(L, 1) = "marg" /\ L[1].v = "%macro"
IsMacroEnd(L)  == K(L, 1) = "marg" /\ L[1].v = "%end"

FirstBadArg(args) ==
  LET bad == {j \in 1..Len(args) : \/ args[j].t # "marg"
                                   \/ \E h \in 1..(j - 1) : args[h].t = "marg" /\ args[h].n = args[j].n}
  IN IF bad = {} THEN 0 ELSE CHOOSE j \in bad : \A h \in bad : j <= h

\* %macro name %a, %b : [sp, n, params]
MacroHead(L, macros) ==
  IF K(L, 2) # "name" THEN Fault(L, 2)
  ELSE IF L[2].v \in Mnemonics THEN Bad(<<L[2].sp>>)
  ELSE LET r == ParseList(L, 3, "arg") IN
    IF ~r.ok THEN r
    ELSE LET key == MacroKey(L[2].v, Len(r.v))  b == FirstBadArg(r.v) IN
      IF key \in DOMAIN macros THEN Bad(<<L[2].sp, macros[key].sp>>)
      ELSE IF b # 0 THEN Bad(<<r.v[b].sp>>)
      ELSE IF ~AtEnd(L, r.i) THEN Fault(L, r.i)
      ELSE Good([sp |-> L[2].sp, n |-> L[2].v, params |-> [j \in 1..Len(r.v) |-> r.v[j].n]], r.i)

\* One line of a macro body: labels and instructions or calls only.
BodyLine(L) ==
  LET lone == Len(L) = 1
      lab == IF K(L, 1) \in {"name", "mlab"} /\ K(L, 2) = ":"
             THEN [s |-> <<[t |-> IF L[1].k = "name" THEN "label" ELSE "mlab",
                            sp |-> Join(L[1].sp, L[2].sp), n |-> L[1].v]>>, i |-> 3]
             ELSE IF K(L, 1) \in {"name", "mlab"} /\ lone /\ IsLocal(L[1].v)
             THEN [s |-> <<[t |-> IF L[1].k = "name" THEN "label" ELSE "mlab",
                            sp |-> L[1].sp, n |-> L[1].v]>>, i |-> 2]
             ELSE [s |-> <<>>, i |-> 1]
  IN IF K(L, lab.i) = "name" THEN
        IF IsLocal(L[lab.i].v) THEN Fault(L, lab.i)
        ELSE LET g == GenInstr(L, lab.i) IN
             IF ~g.ok THEN g
             ELSE IF ~AtEnd(L, g.i) THEN Fault(L, g.i)
             ELSE Good(Append(lab.s, [t |-> "instr", sp |-> g.v.sp, n |-> g.v.n, args |-> g.v.args]), g.i)
     ELSE IF ~AtEnd(L, lab.i) THEN Fault(L, lab.i)
     ELSE Good(lab.s, lab.i)
=============================================================================
