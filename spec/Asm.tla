-------------------------------- MODULE Asm --------------------------------
(***************************************************************************)
(* The assembler as a transition system.  One behaviour assembles one      *)
(* case `cs`: a set of files, the main file and the working directory.     *)
(*                                                                         *)
(*   read    splice included source files and headers into one token list  *)
(*   macros  collect macro definitions, one per step                       *)
(*   parse   turn the remaining lines into statements, one line per step   *)
(*   bytes   replace byte, icon and sprite includes by their data          *)
(*   expand  replace macro calls by their bodies, one body line per step   *)
(*   labels  give every label its position, one statement per step         *)
(*   names   give every constant its value                                 *)
(*   emit    write every statement's bytes                                 *)
(*   done    `err` tells whether the program was rejected, and where       *)
(***************************************************************************)
EXTENDS Macro, Image

VARIABLES cs, ph, n, files, inc, toks, lns, macros, stmts, stk, calls, prog,
          i, pos, maxp, cur, glob, loc, lay, out, err
vars == <<cs, ph, n, files, inc, toks, lns, macros, stmts, stk, calls, prog,
          i, pos, maxp, cur, glob, loc, lay, out, err>>

OK == [bad |-> FALSE, locs |-> <<>>]
Reject(locs) == [bad |-> TRUE, locs |-> locs]

------------------------------------------------------------------------------
\* Paths.  A spelled path is [abs, c]: its components as written.
Idle(c) == c = "" \/ c = "."
RECURSIVE TrimPath(_)
TrimPath(c) == IF c # <<>> /\ Idle(LastOf(c)) THEN TrimPath(SubSeq(c, 1, Len(c) - 1)) ELSE c
Parent(p) == LET t == TrimPath(p.c) IN [p EXCEPT !.c = TrimPath(SubSeq(t, 1, Len(t) - 1))]
Spelled(codes) == LET parts == Split(codes, 47) IN
  IF Len(parts) > 1 /\ parts[1] = <<>>
  THEN [abs |-> TRUE, c |-> [j \in 1..(Len(parts) - 1) |-> StrOf(parts[j + 1])]]
  ELSE [abs |-> FALSE, c |-> [j \in 1..Len(parts) |-> StrOf(parts[j])]]
JoinPath(dir, p) == IF p.abs THEN p ELSE [abs |-> dir.abs, c |-> dir.c \o p.c]
PathKey(p) == [abs |-> p.abs, c |-> SelectSeq(p.c, LAMBDA x : ~Idle(x))]

IsDir(c) == \/ \E f \in 1..Len(cs.files) : Len(cs.files[f].c) > Len(c) /\ SubSeq(cs.files[f].c, 1, Len(c)) = c
            \/ \E d \in 1..Len(cs.dirs) : Len(cs.dirs[d]) >= Len(c) /\ SubSeq(cs.dirs[d], 1, Len(c)) = c
RECURSIVE Walk(_, _)
\* The real file or directory reached from directory `at`, or <<"?">>.
Walk(at, c) ==
  IF c = <<>> THEN at
  ELSE IF ~IsDir(at) THEN <<"?">>
  ELSE IF Idle(Head(c)) THEN Walk(at, Tail(c))
  ELSE IF Head(c) = ".." THEN Walk(IF at = <<>> THEN at ELSE SubSeq(at, 1, Len(at) - 1), Tail(c))
  ELSE Walk(Append(at, Head(c)), Tail(c))
Canon(p) == Walk(IF p.abs THEN <<>> ELSE cs.cwd, p.c)
\* Index of the file a path denotes, or 0.
FileAt(p) == LET c == Canon(p) IN
  IF \E f \in 1..Len(cs.files) : cs.files[f].c = c
  THEN CHOOSE f \in 1..Len(cs.files) : cs.files[f].c = c ELSE 0
\* A path named in file `from`: next to that file, else as seen from the
\* working directory.
FromFile(from, p) == LET q == JoinPath(Parent(from), p) IN
  IF FileAt(q) # 0 \/ FileAt(p) = 0 THEN q ELSE JoinPath([abs |-> TRUE, c |-> cs.cwd], p)

\* Loading registers the file under the first spelling of its path.
Known(p) == {j \in 1..Len(files) : files[j].key = PathKey(p)}
Loadable(p) == LET f == FileAt(p) IN f # 0 /\ cs.files[f].t = "src"
Loaded(p) == IF Known(p) # {} THEN files
             ELSE Append(files, [key |-> PathKey(p), p |-> p, src |-> FileAt(p)])
IdOf(p) == IF Known(p) # {} THEN CHOOSE j \in Known(p) : TRUE ELSE Len(files) + 1
TextOf(p) == cs.files[FileAt(p)].d

------------------------------------------------------------------------------
\* C headers: each #define becomes a constant.
Define(L, j) == L[j].k = "#" /\ NameAt(L, j + 1, "define")
HeaderLine(L) ==
  IF Define(L, 1) THEN
    IF K(L, 3) # "name" THEN Fault(L, 3)
    ELSE LET r == ParseExpr(L, 4) IN
         IF ~r.ok THEN r
         ELSE Good(<<L[3], Token("name", "equ", Join(L[1].sp, L[2].sp))>> \o SubSeq(L, 4, Len(L)), 0)
  ELSE Good(L, 0)
HeaderLines(ls) ==
  FoldLeft(LAMBDA a, L : IF ~a.ok THEN a
                         ELSE LET r == HeaderLine(L) IN IF r.ok THEN Good(a.v \o r.v, 0) ELSE r,
           Good(<<>>, 0), ls)
Header(src, f) == LET x == Lex(src, f, "cpp") IN
  IF ~x.ok THEN Bad(<<x.at>>) ELSE HeaderLines(Lines(x.toks))

------------------------------------------------------------------------------
\* Values of expressions.  The environment e is [g, l, scoped]: while
\* bytes are written dotted names belong to the current global label.
Bound(e, nm) == IF e.scoped /\ IsLocal(nm) THEN nm \in DOMAIN e.l ELSE nm \in DOMAIN e.g
ValueOf(e, nm) == IF e.scoped /\ IsLocal(nm) THEN e.l[nm].v ELSE e.g[nm].v
RECURSIVE Eval(_, _)
Eval(x, e) ==
  CASE x.t = "num" -> Good(x.v, 0)
    [] x.t = "name" -> IF Bound(e, x.n) THEN Good(ValueOf(e, x.n), 0) ELSE Bad(<<x.sp>>)
    [] x.t \in {"mlab", "marg"} -> Bad(<<x.sp>>)
    [] x.t = "una" -> LET a == Eval(x.a, e) IN
         IF ~a.ok THEN a
         ELSE Good(CASE x.op = "-" -> WNeg(a.v) [] x.op = ">" -> HiByte(a.v) [] x.op = "<" -> LoByte(a.v), 0)
    [] x.t = "bin" -> LET a == Eval(x.a, e) IN
         IF ~a.ok THEN a
         ELSE LET b == Eval(x.b, e) IN
           IF ~b.ok THEN b
           ELSE IF x.op = "/" /\ b.v = 0 THEN Bad(<<x.sp>>)
           ELSE Good(CASE x.op = "+" -> WAdd(a.v, b.v) [] x.op = "-" -> WSub(a.v, b.v)
                       [] x.op = "*" -> WMul(a.v, b.v) [] x.op = "/" -> WDiv(a.v, b.v)
                       [] x.op = "&" -> WAnd(a.v, b.v) [] x.op = "|" -> WOr(a.v, b.v)
                       [] x.op = "^" -> WXor(a.v, b.v), 0)
NoNames == [g |-> <<>>, l |-> <<>>, scoped |-> FALSE]

------------------------------------------------------------------------------
\* Where a statement that starts at position p ends: [ok, v, err].
ItemSize(b) == IF b.t = "str" THEN Len(Utf8(b.v)) ELSE 1
\* Positions stay below MaxI.
Ahead(s, p, k) == IF k > MaxI - 1 - p THEN Bad(<<s.sp>>) ELSE Good(p + k, 0)
\* The multiple of m at or after p: how far ahead it is.
ToMultiple(p, m) == (m - (p % m)) % m
EndOf(s, p) ==
  CASE s.t = "byte" -> Ahead(s, p, FoldLeft(LAMBDA a, b : a + ItemSize(b), 0, s.v))
    [] s.t = "word" -> Ahead(s, p, 2 * Len(s.v))
    [] s.t = "bin" -> Ahead(s, p, Len(s.v))
    [] s.t \in {"text", "string"} -> Ahead(s, p, s.n)
    [] s.t = "org" -> Ahead(s, 0, s.n)
    [] s.t = "cnop" -> IF s.a.t # "num" THEN Bad(<<s.a.sp>>)
                       ELSE IF s.m.t # "num" THEN Bad(<<s.m.sp>>)
                       ELSE IF s.m.v = 0 \/ p = 0 THEN Ahead(s, 0, s.a.v)
                       ELSE LET r == ToMultiple(p, s.m.v) IN
                            IF r > MaxI - 1 - p THEN Bad(<<s.sp>>) ELSE Ahead(s, p + r, s.a.v)
    [] s.t = "instr" -> Ahead(s, p, Size(s.f))
    [] OTHER -> Good(p, 0)

\* The bytes of a statement at position p in environment e: [ok, v, err].
\* All of seq's elements' bytes, or the first error.
AllBytes(seq, One(_, _)) ==
  FoldLeft(LAMBDA a, k : IF ~a.ok THEN a
                         ELSE LET r == One(seq[k], k) IN IF r.ok THEN Good(a.v \o r.v, 0) ELSE r,
           Good(<<>>, 0), Ints(1, Len(seq)))
ByteItem(b, e) ==
  IF b.t = "str" THEN Good(Utf8(b.v), 0)
  ELSE LET r == Eval(b, e) IN
       IF ~r.ok THEN r ELSE IF r.v \notin -128..255 THEN Bad(<<b.sp>>) ELSE Good(<<r.v % 256>>, 0)
WordItem(b, e) ==
  LET r == Eval(b, e) IN
  IF ~r.ok THEN r ELSE IF r.v \notin -32768..65535 THEN Bad(<<b.sp>>)
  ELSE Good(<<r.v % 256, (r.v \div 256) % 256>>, 0)
Padded(s, pad) == LET b == Utf8(s.v) IN
  IF Len(b) > s.n THEN Bad(<<s.sp>>) ELSE Good(b \o Rep(pad, s.n - Len(b)), 0)
\* The field value of operand a of kind k, as a sequence of one.
Field(a, k, next, e) ==
  IF k = "ri" THEN Good(<<a.v>>, 0)
  ELSE LET r == Eval(a.e, e) IN
       IF ~r.ok THEN r
       ELSE IF ~FitsField(k, r.v, next) THEN Bad(<<a.e.sp>>)
       ELSE Good(<<FieldVal(k, r.v, next)>>, 0)
BytesOf(s, p, e) ==
  CASE s.t = "byte" -> AllBytes(s.v, LAMBDA b, k : ByteItem(b, e))
    [] s.t = "word" -> AllBytes(s.v, LAMBDA b, k : WordItem(b, e))
    [] s.t = "bin" -> Good(s.v, 0)
    [] s.t = "text" -> Padded(s, 32)
    [] s.t = "string" -> Padded(s, 0)
    [] s.t = "instr" -> LET r == AllBytes(s.args, LAMBDA a, k : Field(a, Forms[s.f].args[k], p + Size(s.f), e)) IN
                        IF ~r.ok THEN r ELSE Good(Encode(s.f, r.v), 0)
    [] s.t = "org" -> IF s.n > 65535 THEN Bad(<<s.sp>>) ELSE Good(<<>>, 0)
    [] OTHER -> Good(<<>>, 0)

\* The image is kept in pages; a page never written is all zero.
PageSize == 256
ZeroPage == Rep(0, PageSize)
PageOf(image, g) == IF g \in DOMAIN image THEN image[g] ELSE ZeroPage
WritePage(page, at, b) ==  \* b may begin before and end after the page
  LET from == Max2(at, 0)  to == Min2(at + Len(b), PageSize) IN
  SubSeq(page, 1, from) \o SubSeq(b, from - at + 1, to - at) \o SubSeq(page, to + 1, PageSize)
Overwrite(image, p, b) ==
  IF b = <<>> THEN image
  ELSE [g \in (p \div PageSize)..((p + Len(b) - 1) \div PageSize) |->
          WritePage(PageOf(image, g), p - g * PageSize, b)] @@ image
NonZero(image) == {g \in DOMAIN image : image[g] # ZeroPage}
SameImage(a, b) == NonZero(a) = NonZero(b) /\ \A g \in NonZero(a) : a[g] = b[g]
ByteAt(image, p) == PageOf(image, p \div PageSize)[(p % PageSize) + 1]

------------------------------------------------------------------------------
\* A run over case c begins with its main file.
Start(c) ==
  /\ cs = c /\ ph = "load" /\ n = 0 /\ files = <<>> /\ inc = <<>> /\ toks = <<>>
  /\ lns = <<>> /\ macros = <<>> /\ stmts = <<>> /\ stk = <<>> /\ calls = 0 /\ prog = <<>>
  /\ i = 1 /\ pos = 0 /\ maxp = 0 /\ cur = "" /\ glob = <<>> /\ loc = <<>> /\ lay = <<>>
  /\ out = <<>> /\ err = OK

Stop(locs) == /\ ph' = "done" /\ err' = Reject(locs)
              /\ UNCHANGED <<files, inc, toks, lns, macros, stmts, stk, calls, prog,
                             i, pos, maxp, cur, glob, loc, lay, out>>
MainPath == JoinPath([abs |-> TRUE, c |-> cs.cwd], Spelled(cs.main))

\* Push the lines of the file spelled p, to be spliced in.  A file that cannot
\* be read as text has no location; one with a bad character is registered, so
\* that its location can be shown.
PushOrStop(p, stack) ==
  IF ~Loadable(p) THEN Stop(<<>>)
  ELSE LET f == IdOf(p)  x == Lex(TextOf(p), f, "asm") IN
    /\ files' = Loaded(p)
    /\ IF x.ok
       THEN /\ inc' = Append(stack, [p |-> files'[f].p, canon |-> Canon(p),
                                     lines |-> Lines(x.toks), i |-> 1, after |-> 0])
            /\ ph' = "read" /\ UNCHANGED err
       ELSE ph' = "done" /\ err' = Reject(<<x.at>>) /\ UNCHANGED inc
    /\ UNCHANGED <<toks, lns, macros, stmts, stk, calls, prog, i, pos, maxp, cur, glob, loc, lay, out>>

Load == ph = "load" /\ PushOrStop(MainPath, <<>>)

Top == inc[Len(inc)]
Below == SubSeq(inc, 1, Len(inc) - 1)
Advanced(fr, after) == [fr EXCEPT !.i = @ + 1, !.after = after]
IncludeAt(L) == LET d == IF NameAt(L, 1, ".include") THEN Directive(L, 1) ELSE Bad(<<>>) IN
  IF d.ok /\ d.v.t = "include" THEN d ELSE [ok |-> FALSE]
\* Index of the first line from j on that is an include, or past the end.
NextInclude(ls, j) == FirstIn(j, Len(ls), LAMBDA k : IncludeAt(ls[k]).ok)

\* Lines that include nothing are taken as they are.
ReadLines ==
  /\ ph = "read" /\ inc # <<>> /\ Top.i <= Len(Top.lines) /\ ~IncludeAt(Top.lines[Top.i]).ok
  /\ LET j == NextInclude(Top.lines, Top.i) IN
     /\ toks' = toks \o FlattenSeq(SubSeq(Top.lines, Top.i, j - 1))
     /\ inc' = Append(Below, [Top EXCEPT !.i = j])
  /\ UNCHANGED <<ph, files, lns, macros, stmts, stk, calls, prog, i, pos, maxp, cur, glob, loc, lay, out, err>>

Reading(typ) == /\ ph = "read" /\ inc # <<>> /\ Top.i <= Len(Top.lines)
                /\ LET d == IncludeAt(Top.lines[Top.i]) IN d.ok /\ d.v.typ \in typ
ThisLine == Top.lines[Top.i]
ThisInclude == IncludeAt(ThisLine)
ThisPath == FromFile(Top.p, Spelled(ThisLine[ThisInclude.v.pathat].v))

IncludeSource ==
  /\ Reading({"asm"})
  /\ LET p == ThisPath IN
     IF \E j \in 1..Len(inc) : FileAt(p) # 0 /\ inc[j].canon = Canon(p)
     THEN Stop(<<ThisInclude.v.sp>>)
     ELSE PushOrStop(p, Append(Below, Advanced(Top, ThisInclude.i)))

\* The end of an included file; nothing may follow the directive.
EndOfFile ==
  /\ ph = "read" /\ inc # <<>> /\ Top.i > Len(Top.lines)
  /\ IF Len(inc) = 1
     THEN /\ ph' = "macros" /\ inc' = <<>> /\ lns' = Lines(toks) /\ toks' = <<>> /\ i' = 1
          /\ UNCHANGED <<files, macros, stmts, stk, calls, prog, pos, maxp, cur, glob, loc, lay, out, err>>
     ELSE LET b == inc[Len(inc) - 1]  L == b.lines[b.i - 1] IN
          IF ~AtEnd(L, b.after) THEN Stop(Fault(L, b.after).err)
          ELSE /\ inc' = Below
               /\ UNCHANGED <<ph, files, toks, lns, macros, stmts, stk, calls, prog, i, pos, maxp, cur, glob, loc, lay, out, err>>

IncludeHeader ==
  /\ Reading({"cpp"})
  /\ LET p == ThisPath  L == ThisLine IN
     IF ~Loadable(p) THEN Stop(<<>>)
     ELSE LET h == Header(TextOf(p), IdOf(p)) IN
       /\ files' = Loaded(p)
       /\ IF ~h.ok THEN ph' = "done" /\ err' = Reject(h.err) /\ UNCHANGED <<inc, toks>>
          ELSE IF ~AtEnd(L, ThisInclude.i)
          THEN ph' = "done" /\ err' = Reject(Fault(L, ThisInclude.i).err) /\ UNCHANGED <<inc, toks>>
          ELSE /\ toks' = toks \o h.v
               /\ inc' = Append(Below, Advanced(Top, 0))
               /\ UNCHANGED <<ph, err>>
       /\ UNCHANGED <<lns, macros, stmts, stk, calls, prog, i, pos, maxp, cur, glob, loc, lay, out>>

\* Data includes keep their line; the paths in it are settled here.
SetPath(tok, p) == [k |-> tok.k, v |-> tok.v, sp |-> tok.sp, path |-> p]
IncludeData ==
  /\ Reading({"bytes", "icon", "sprite"})
  /\ LET L == ThisLine  d == ThisInclude.v
         L1 == [L EXCEPT ![d.pathat] = SetPath(@, ThisPath)]
         L2 == IF d.typ = "icon" /\ d.eye.t = "str"
               THEN [j \in 1..Len(L1) |-> IF L1[j].sp = d.eye.sp
                                          THEN SetPath(L1[j], FromFile(Top.p, Spelled(L1[j].v))) ELSE L1[j]]
               ELSE L1
     IN toks' = toks \o L2
  /\ inc' = Append(Below, Advanced(Top, 0))
  /\ UNCHANGED <<ph, files, lns, macros, stmts, stk, calls, prog, i, pos, maxp, cur, glob, loc, lay, out, err>>

------------------------------------------------------------------------------
\* Macro definitions: all of them are read before any other line is parsed.
NextMacro(ls, j) == FirstIn(j, Len(ls), LAMBDA k : IsMacroHead(ls[k]))
\* Body lines from j to the %end line: v = body, i = index after %end.
BodyFrom(ls, j) ==
  LET e == FirstIn(j, Len(ls), LAMBDA k : IsMacroEnd(ls[k]))
      b == FoldLeft(LAMBDA a, k : IF ~a.ok THEN a
                                  ELSE LET r == BodyLine(ls[k]) IN IF r.ok THEN Good(a.v \o r.v, 0) ELSE r,
                    Good(<<>>, 0), Ints(j, e - 1))
  IN IF ~b.ok THEN b
     ELSE IF e > Len(ls) THEN Good(b.v, e)
     ELSE IF AtEnd(ls[e], 2) THEN Good(b.v, e + 1) ELSE Fault(ls[e], 2)

DefineMacro ==
  /\ ph = "macros" /\ i <= Len(lns) /\ IsMacroHead(lns[i])
  /\ LET h == MacroHead(lns[i], macros) IN
     IF ~h.ok THEN Stop(h.err)
     ELSE LET b == BodyFrom(lns, i + 1) IN
       IF ~b.ok THEN Stop(b.err)
       ELSE /\ macros' = (MacroKey(h.v.n, Len(h.v.params)) :>
                            [sp |-> h.v.sp, params |-> h.v.params, body |-> b.v]) @@ macros
            /\ lns' = SubSeq(lns, 1, i - 1) \o SubSeq(lns, b.i, Len(lns))
            /\ UNCHANGED <<ph, files, inc, toks, stmts, stk, calls, prog, i, pos, maxp, cur, glob, loc, lay, out, err>>
SkipToMacro ==
  /\ ph = "macros" /\ (IF i > Len(lns) THEN TRUE ELSE ~IsMacroHead(lns[i]))
  /\ LET j == NextMacro(lns, i) IN
     IF j > Len(lns) THEN ph' = "parse" /\ i' = 1 ELSE i' = j /\ UNCHANGED ph
  /\ UNCHANGED <<files, inc, toks, lns, macros, stmts, stk, calls, prog, pos, maxp, cur, glob, loc, lay, out, err>>

ParseLine ==
  /\ ph = "parse" /\ i <= Len(lns)
  /\ LET r == LineStatements(lns[i]) IN
     IF ~r.ok THEN Stop(r.err)
     ELSE /\ stmts' = stmts \o r.v /\ i' = i + 1
          /\ UNCHANGED <<ph, files, inc, toks, lns, macros, stk, calls, prog, pos, maxp, cur, glob, loc, lay, out, err>>
Parsed ==
  /\ ph = "parse" /\ i > Len(lns)
  /\ ph' = "bytes" /\ i' = 1 /\ lns' = <<>>
  /\ UNCHANGED <<files, inc, toks, macros, stmts, stk, calls, prog, pos, maxp, cur, glob, loc, lay, out, err>>

------------------------------------------------------------------------------
\* Data includes become their bytes.
IsData(s) == s.t = "include"
DataFile(p) == FileAt(FromFile(MainPath, p))
FileBytes(f) == IF cs.files[f].t = "src" THEN Utf8(cs.files[f].d) ELSE cs.files[f].b
Picture(p) == LET f == DataFile(p) IN f # 0 /\ cs.files[f].t = "img"
Data(s) ==
  CASE s.typ = "bytes" -> LET f == DataFile(s.path) IN
         IF f = 0 THEN Bad(<<>>) ELSE Good(FileBytes(f), 0)
    [] s.typ = "icon" ->
         LET sv == IF s.speed.t = "none" THEN Good(10, 0) ELSE Eval(s.speed, NoNames) IN
         IF ~sv.ok THEN sv
         ELSE IF sv.v \notin 0..65535 THEN Bad(<<s.speed.sp>>)
         ELSE IF s.eye.t \notin {"none", "str"} THEN Bad(<<s.eye.sp>>)
         ELSE IF ~Picture(s.path) \/ (s.eye.t = "str" /\ ~Picture(s.eye.path)) THEN Bad(<<>>)
         ELSE LET im == cs.files[DataFile(s.path)].d
                  eye == IF s.eye.t = "none" THEN <<>> ELSE <<cs.files[DataFile(s.eye.path)].d>>
                  r == Icon(im, sv.v, eye)
              IN IF r.ok THEN Good(r.v, 0) ELSE Bad(<<>>)
    [] s.typ = "sprite" ->
         IF ~Picture(s.path) THEN Bad(<<>>)
         ELSE LET r == Sprite(cs.files[DataFile(s.path)].d, s.masked, s.header) IN
              IF r.ok THEN Good(r.v, 0) ELSE Bad(<<s.sp>>)
InsertData ==
  /\ ph = "bytes" /\ \E j \in i..Len(stmts) : IsData(stmts[j])
  /\ LET j == CHOOSE k \in i..Len(stmts) : IsData(stmts[k]) /\ \A h \in i..(k - 1) : ~IsData(stmts[h])
         r == Data(stmts[j])
     IN IF ~r.ok THEN Stop(r.err)
        ELSE /\ stmts' = [stmts EXCEPT ![j] = [t |-> "bin", sp |-> stmts[j].sp, v |-> r.v]]
             /\ i' = j + 1
             /\ UNCHANGED <<ph, files, inc, toks, lns, macros, stk, calls, prog, pos, maxp, cur, glob, loc, lay, out, err>>
DataDone ==
  /\ ph = "bytes" /\ ~\E j \in i..Len(stmts) : IsData(stmts[j])
  /\ ph' = "expand" /\ i' = 1
  /\ UNCHANGED <<files, inc, toks, lns, macros, stmts, stk, calls, prog, pos, maxp, cur, glob, loc, lay, out, err>>

------------------------------------------------------------------------------
\* Macro expansion.
Active(key) == \E j \in 1..Len(stk) : stk[j].key = key
Call(sp, nm, args, below) ==
  LET key == MacroKey(nm, Len(args)) IN
  IF Active(key) THEN Stop(<<sp>>)
  ELSE IF key \notin DOMAIN macros THEN Stop(<<sp>>)
  ELSE LET fr == Enter(macros, key, sp, args, calls + 1) IN
    IF ~fr.ok THEN Stop(fr.err)
    ELSE /\ stk' = Append(below, fr.v) /\ calls' = calls + 1
         /\ UNCHANGED <<ph, files, inc, toks, lns, macros, stmts, prog, pos, maxp, cur, glob, loc, lay, out, err>>
         /\ UNCHANGED i

PlainStatement ==
  /\ ph = "expand" /\ stk = <<>> /\ i <= Len(stmts) /\ stmts[i].t # "call"
  /\ prog' = Append(prog, stmts[i]) /\ i' = i + 1
  /\ UNCHANGED <<ph, files, inc, toks, lns, macros, stmts, stk, calls, pos, maxp, cur, glob, loc, lay, out, err>>
MacroCall ==
  /\ ph = "expand" /\ stk = <<>> /\ i <= Len(stmts) /\ stmts[i].t = "call"
  /\ Call(stmts[i].sp, stmts[i].n, stmts[i].args, <<>>)
Frame == stk[Len(stk)]
Rest == SubSeq(stk, 1, Len(stk) - 1)
BodyStatement ==
  /\ ph = "expand" /\ stk # <<>> /\ Frame.i <= Len(Frame.body)
  /\ LET s == Frame.body[Frame.i]
         below == Append(Rest, [Frame EXCEPT !.i = @ + 1])
     IN IF s.t = "instr" THEN
          LET a == SubstArgs(s.args, Frame.inv, Frame.lab, Frame.am)
              sp == WithParent(s.sp, Frame.inv)
          IN IF ~a.ok THEN Stop(a.err)
             ELSE IF MacroKey(s.n, Len(s.args)) \in DOMAIN macros THEN Call(sp, s.n, a.v, below)
             ELSE LET m == MakeInstr(sp, s.n, a.v) IN
               IF ~m.ok THEN Stop(m.err)
               ELSE /\ prog' = Append(prog, m.v) /\ stk' = below
                    /\ UNCHANGED <<ph, files, inc, toks, lns, macros, stmts, calls, i, pos, maxp, cur, glob, loc, lay, out, err>>
        ELSE /\ prog' = Append(prog, Label(s.sp, IF s.t = "mlab" THEN Frame.lab[s.n] ELSE s.n))
             /\ stk' = below
             /\ UNCHANGED <<ph, files, inc, toks, lns, macros, stmts, calls, i, pos, maxp, cur, glob, loc, lay, out, err>>
Return ==
  /\ ph = "expand" /\ stk # <<>> /\ Frame.i > Len(Frame.body)
  /\ stk' = Rest /\ (IF Rest = <<>> THEN i' = i + 1 ELSE UNCHANGED i)
  /\ UNCHANGED <<ph, files, inc, toks, lns, macros, stmts, calls, prog, pos, maxp, cur, glob, loc, lay, out, err>>
Expanded ==
  /\ ph = "expand" /\ stk = <<>> /\ i > Len(stmts)
  /\ ph' = "labels"
  /\ i' = 1 /\ stmts' = <<>> /\ lay' = <<>> /\ loc' = ("" :> <<>>)
  /\ UNCHANGED <<files, inc, toks, lns, macros, stk, calls, prog, pos, maxp, cur, glob, out, err>>

------------------------------------------------------------------------------
\* Pass one: positions of all statements and labels.
Place ==
  /\ ph = "labels" /\ i <= Len(prog)
  /\ LET s == prog[i] IN
     IF s.t = "label" THEN
       LET table == IF IsLocal(s.n) THEN loc[cur] ELSE glob IN
       IF s.n \in DOMAIN table THEN Stop(<<s.sp, table[s.n].sp>>)
       ELSE /\ lay' = Append(lay, pos) /\ i' = i + 1
            /\ IF IsLocal(s.n)
               THEN /\ loc' = [loc EXCEPT ![cur] = (s.n :> [v |-> pos, sp |-> s.sp]) @@ @]
                    /\ UNCHANGED <<glob, cur>>
               ELSE /\ glob' = (s.n :> [v |-> pos, sp |-> s.sp]) @@ glob
                    /\ loc' = (s.n :> <<>>) @@ loc
                    /\ cur' = s.n
            /\ UNCHANGED <<ph, files, inc, toks, lns, macros, stmts, stk, calls, prog, pos, maxp, out, err>>
     ELSE LET r == EndOf(s, pos) IN
       IF ~r.ok THEN Stop(r.err)
       ELSE /\ lay' = Append(lay, pos) /\ pos' = r.v /\ maxp' = Max2(maxp, r.v) /\ i' = i + 1
            /\ UNCHANGED <<ph, files, inc, toks, lns, macros, stmts, stk, calls, prog, cur, glob, loc, out, err>>
Placed ==
  /\ ph = "labels" /\ i > Len(prog)
  /\ ph' = "names" /\ i' = 1 /\ lay' = Append(lay, pos)
  /\ UNCHANGED <<files, inc, toks, lns, macros, stmts, stk, calls, prog, pos, maxp, cur, glob, loc, out, err>>

\* Constants, in order, over all labels and the constants before them.
NextConst(j) == FirstIn(j, Len(prog), LAMBDA k : prog[k].t = "const")
DefineConst ==
  /\ ph = "names" /\ NextConst(i) <= Len(prog)
  /\ LET j == NextConst(i)  s == prog[j]
         r == Eval(s.e, [g |-> glob, l |-> <<>>, scoped |-> FALSE])
     IN IF ~r.ok THEN Stop(r.err)
        ELSE IF s.n \in DOMAIN glob THEN Stop(<<s.sp, glob[s.n].sp>>)
        ELSE /\ glob' = (s.n :> [v |-> r.v, sp |-> s.sp]) @@ glob
             /\ i' = j + 1
             /\ UNCHANGED <<ph, files, inc, toks, lns, macros, stmts, stk, calls, prog, pos, maxp, cur, loc, lay, out, err>>
Named ==
  /\ ph = "names" /\ NextConst(i) > Len(prog)
  /\ ph' = "emit" /\ i' = 1 /\ pos' = 0 /\ cur' = "" /\ out' = <<>>
  /\ UNCHANGED <<files, inc, toks, lns, macros, stmts, stk, calls, prog, maxp, glob, loc, lay, err>>

\* Pass two: every statement's bytes.
Emit ==
  /\ ph = "emit" /\ i <= Len(prog)
  /\ LET s == prog[i]
         r == BytesOf(s, pos, [g |-> glob, l |-> loc[cur], scoped |-> TRUE])
     IN IF ~r.ok THEN Stop(r.err)
        ELSE /\ out' = Overwrite(out, pos, r.v)
             /\ pos' = EndOf(s, pos).v
             /\ cur' = IF s.t = "label" /\ ~IsLocal(s.n) THEN s.n ELSE cur
             /\ i' = i + 1
             /\ UNCHANGED <<ph, files, inc, toks, lns, macros, stmts, stk, calls, prog, maxp, glob, loc, lay, err>>
Finish ==
  /\ ph = "emit" /\ i > Len(prog)
  /\ ph' = "done"
  /\ UNCHANGED <<files, inc, toks, lns, macros, stmts, stk, calls, prog, i, pos, maxp, cur, glob, loc, lay, out, err>>

Step == \/ Load \/ ReadLines \/ IncludeSource \/ IncludeHeader \/ IncludeData \/ EndOfFile
        \/ DefineMacro \/ SkipToMacro \/ ParseLine \/ Parsed
        \/ InsertData \/ DataDone
        \/ PlainStatement \/ MacroCall \/ BodyStatement \/ Return \/ Expanded
        \/ Place \/ Placed \/ DefineConst \/ Named \/ Emit \/ Finish
Next == Step /\ n' = n + 1 /\ UNCHANGED cs

------------------------------------------------------------------------------
\* What must hold in every state.
Phases == {"load", "read", "macros", "parse", "bytes", "expand", "labels", "names", "emit", "done"}
TypeOK == /\ ph \in Phases /\ err.bad \in BOOLEAN /\ pos >= 0 /\ pos < MaxI /\ maxp >= 0 /\ maxp < MaxI
          /\ (err.bad => ph = "done")
\* Both passes agree on where every statement is, and labels point there.
PassesAgree ==
  /\ ph = "emit" => pos = lay[i]
  /\ ph = "emit" /\ i <= Len(prog) /\ prog[i].t = "label" /\ ~IsLocal(prog[i].n)
       => glob[prog[i].n].v = pos
  /\ ph = "emit" /\ i <= Len(prog) /\ prog[i].t = "label" /\ IsLocal(prog[i].n)
       => loc[cur][prog[i].n].v = pos
\* Nothing is written past the end, and bytes no statement covers are zero.
Extent(j) == lay[j]..(lay[j] + (IF prog[j].t \in {"org", "cnop", "const", "label"} THEN 0
                                ELSE EndOf(prog[j], lay[j]).v - lay[j]) - 1)
RestIsZero == ph = "done" /\ ~err.bad  /\ maxp < 5000 =>
  \A g \in DOMAIN out : \A k \in 1..PageSize :
     /\ out[g][k] \in 0..255
     /\ (out[g][k] # 0 => \E j \in 1..Len(prog) : (g * PageSize + k - 1) \in Extent(j))
ImageOK == ph = "done" /\ ~err.bad  =>
  /\ \A j \in 1..Len(lay) : lay[j] <= maxp
  /\ \A g \in DOMAIN out : g * PageSize < maxp /\
        ((g + 1) * PageSize > maxp => \A k \in (maxp - g * PageSize + 1)..PageSize : out[g][k] = 0)
\* The macro-free program has no calls, and no label is declared twice.
NoCallsLeft == ph \in {"labels", "names", "emit"} =>
  \A j \in 1..Len(prog) : prog[j].t \in {"label", "instr", "byte", "word", "text", "string", "org", "cnop", "const", "bin"}
\* A rejected program names only places inside the files it read.
LocsOK == err.bad => \A j \in 1..Len(err.locs) :
  err.locs[j].f \in 1..Len(files) /\ err.locs[j].l >= 1 /\ err.locs[j].c >= 0

\* What TLC shows of the states that lead to an error.
Where == [id |-> cs.id, phase |-> ph, n |-> n]
=============================================================================
