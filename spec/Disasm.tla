------------------------------- MODULE Disasm -------------------------------
(***************************************************************************)
(* The disassembler.  A behaviour takes one image and one set of entry     *)
(* points:                                                                 *)
(*   trace    decode everything reachable, one level of targets per step   *)
(*   listing  read the listing that the real program printed as a program  *)
(* and then the assembler of module Asm assembles that listing.  At the    *)
(* end the listing must denote what was found in the image:                *)
(*   mode "decode"  every instruction is the one its bytes encode          *)
(*        "reach"   instructions, data, labels and notes stand exactly at  *)
(*                  the places the trace found                             *)
(*        "round"   the listing assembles to the image again, also in the  *)
(*                  real assembler                                         *)
(* A case is [id, mode, len, runs (non-zero stretches), entry, arrived,    *)
(* columns, obs]; obs.text is the listing up to its constant tail, which   *)
(* is obs.tail's entry in the list of tails that all cases share, and      *)
(* obs.lines are its lines.                                                *)
(***************************************************************************)
EXTENDS Asm, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
TailTexts == ndJsonDeserialize(IOEnv.TAILS)

VARIABLES dph,     \* "trace", "asm" (reading the listing), "short" (code runs out of the image)
          img,     \* the image, in pages
          code,    \* reachable position -> [f, v, next, to (targets followed), flash]
          front,   \* positions still to decode, in order
          edges    \* <<from, to>> pairs
dvars == <<dph, img, code, front, edges>>

ImageFrom(runs) == FoldLeft(LAMBDA a, r : Overwrite(a, r[1], r[2]), <<>>, runs)
Byte(p) == ByteAt(img, p)

------------------------------------------------------------------------------
\* Decoding.
EXT == 269
IsTarget(k) == k \in Targets
TargetArg(f) == IF \E a \in 1..Len(Forms[f].args) : IsTarget(Forms[f].args[a])
                THEN CHOOSE a \in 1..Len(Forms[f].args) : IsTarget(Forms[f].args[a]) ELSE 0
Fits(p) == p + Size(FormFor[Byte(p)]) <= cs.len
DecodeAt(p) == LET f == FormFor[Byte(p)] IN
  [f |-> f, next |-> p + Size(f), v |-> FieldsOf(f, [k \in 1..Size(f) |-> Byte(p + k - 1)])]
Target(d) == LET a == TargetArg(d.f) IN TargetOf(Forms[d.f].args[a], d.v[a], d.next)
Ends(m) == m \in {"jmp", "jmpf", "br", "brf", "ret", "reti"}
\* A far jump that follows the switch to flash memory leaves the image.
Switches(d) == Forms[d.f].m = "not1" /\ d.v = <<EXT, 0>>
AfterSwitch(p, known, es) == p >= 2 /\ (p - 2) \in DOMAIN known /\ <<p - 2, p>> \in es
                             /\ Switches(known[p - 2])
Follow(p, d, known, es) ==
  LET m == Forms[d.f].m IN
  IF m = "jmpf" /\ AfterSwitch(p, known, es) THEN <<>>
  ELSE (IF TargetArg(d.f) # 0 THEN <<Target(d)>> ELSE <<>>) \o (IF Ends(m) THEN <<>> ELSE <<d.next>>)

DInit ==
  \E k \in 1..Len(Cases) :
    LET c == Cases[k] IN
    /\ cs = c /\ ph = "load" /\ n = 0 /\ inc = <<>> /\ toks = <<>>
    /\ files = <<[key |-> "listing", p |-> "listing", src |-> 1]>>
    /\ lns = <<>> /\ macros = <<>> /\ stmts = <<>> /\ stk = <<>> /\ calls = 0 /\ prog = <<>>
    /\ i = 1 /\ pos = 0 /\ maxp = 0 /\ cur = "" /\ glob = <<>> /\ loc = <<>> /\ lay = <<>>
    /\ out = <<>> /\ err = OK
    /\ dph = "trace" /\ code = <<>> /\ front = c.entry /\ edges = {}
    /\ img = ImageFrom(c.runs)

\* One level: everything new in front is decoded, what it leads to is next.
Visit(a, p) ==
  IF a.bad \/ p < 0 \/ p >= cs.len \/ p \in DOMAIN a.code THEN a
  ELSE IF ~Fits(p) THEN [a EXCEPT !.bad = TRUE]
  ELSE LET d == DecodeAt(p)  to == Follow(p, d, a.code, a.edges)
           known == (p :> [f |-> d.f, v |-> d.v, next |-> d.next, to |-> to]) @@ a.code
       IN [a EXCEPT !.code = known,
                    !.edges = @ \cup {<<p, to[k]>> : k \in 1..Len(to)},
                    !.next = @ \o SelectSeq(to, LAMBDA t : t \notin DOMAIN known)]
Trace ==
  /\ dph = "trace" /\ front # <<>>
  /\ LET a == FoldLeft(Visit, [code |-> code, edges |-> edges, next |-> <<>>, bad |-> FALSE], front) IN
     /\ code' = a.code /\ edges' = a.edges /\ front' = a.next
     /\ IF a.bad THEN err' = Reject(<<>>) /\ ph' = "done" /\ dph' = "short"
        ELSE UNCHANGED <<err, ph, dph>>
  /\ UNCHANGED <<img, files, inc, toks, lns, macros, stmts, stk, calls, prog, i, pos, maxp, cur, glob, loc, lay, out>>

------------------------------------------------------------------------------
\* Reading the listing.
HexVal(s) == IF \A k \in 1..Len(s) : DigitVal(s[k]) < 16
             THEN FoldLeft(LAMBDA a, ch : 16 * a + DigitVal(ch), 0, s) ELSE -1
Blank4 == <<32, 32, 32, 32>>
HasColumn(line) == Len(line) >= 6 /\ line[5] = 124 /\ line[6] = 32
                   /\ (SubSeq(line, 1, 4) = Blank4 \/ HexVal(SubSeq(line, 1, 4)) >= 0)
Column(line) == IF ~HasColumn(line) \/ SubSeq(line, 1, 4) = Blank4 THEN -1 ELSE HexVal(SubSeq(line, 1, 4))
Bare(line) == IF cs.columns /\ HasColumn(line) THEN SubSeq(line, 7, Len(line)) ELSE line
RawLines == cs.obs.lines

\* All statements of a text, or the error.
ParseText(text) ==
  LET x == Lex(text, 1, "asm") IN
  IF ~x.ok THEN Bad(<<x.at>>)
  ELSE FoldLeft(LAMBDA a, L : IF ~a.ok THEN a
                              ELSE LET r == LineStatements(L) IN IF r.ok THEN Good(a.v \o r.v, 0) ELSE r,
                Good(<<>>, 0), Lines(x.toks))
\* The constants of a tail: [ok, v].  A tail holds numeric constants only.
TailTable(text) ==
  LET r == ParseText(text) IN
  IF ~r.ok THEN [ok |-> FALSE, v |-> <<>>]
  ELSE FoldLeft(LAMBDA a, s :
         IF s.t # "const" THEN [a EXCEPT !.ok = FALSE]
         ELSE IF s.e.t # "num" \/ s.n \in DOMAIN a.v THEN [a EXCEPT !.ok = FALSE]
         ELSE [a EXCEPT !.v = (s.n :> [v |-> s.e.v, sp |-> s.sp]) @@ @],
         [ok |-> TRUE, v |-> <<>>], r.v)
TailTables == TLCEval([k \in 1..Len(TailTexts) |-> TLCEval(TailTable(TailTexts[k]))])

Joined(lines) == FoldLeft(LAMBDA a, l : a \o l \o <<10>>, <<>>, lines)
ReadListing ==
  /\ dph = "trace" /\ front = <<>>
  /\ dph' = "asm"
  /\ IF cs.obs.kind # "ok" THEN ph' = "done" /\ UNCHANGED <<prog, glob, loc, err>>
     ELSE LET text == IF cs.columns THEN Joined(TLCEval([k \in 1..Len(RawLines) |-> Bare(RawLines[k])]))
                      ELSE cs.obs.text
              r == ParseText(text)
              tl == IF cs.obs.tail = 0 THEN [ok |-> TRUE, v |-> <<>>] ELSE TailTables[cs.obs.tail]
          IN IF ~r.ok \/ ~tl.ok
             THEN ph' = "done" /\ err' = Reject(IF r.ok THEN <<>> ELSE r.err) /\ UNCHANGED <<prog, glob, loc>>
             ELSE ph' = "labels" /\ prog' = r.v /\ glob' = tl.v /\ loc' = ("" :> <<>>) /\ UNCHANGED err
  /\ UNCHANGED <<img, code, front, edges, files, inc, toks, lns, macros, stmts, stk, calls, i, pos, maxp, cur, lay, out>>

DNext == \/ (Trace \/ ReadListing) /\ n' = n + 1 /\ UNCHANGED cs
         \/ dph = "asm" /\ ph # "done" /\ Next /\ UNCHANGED dvars
         \/ ph = "done" /\ UNCHANGED <<vars, dvars>>
RunView == <<cs.id, dph, ph, n>>

------------------------------------------------------------------------------
\* What the trace means.
Pos == DOMAIN code
Into(p) == {e[1] : e \in {x \in edges : x[2] = p}}
Flash(p) == Forms[code[p].f].m = "jmpf" /\ AfterSwitch(p, code, edges)
\* Whether a far jump is an exit does not depend on how it is reached.
Settled == \A p \in Pos : Flash(p) => Into(p) = {p - 2} /\ \A k \in 1..Len(cs.entry) : cs.entry[k] # p
Aimed == {Target(code[p]) : p \in {q \in Pos : TargetArg(code[q].f) # 0 /\ ~Flash(q)}}
Covered == UNION {p..(code[p].next - 1) : p \in Pos}
\* A branch to an address that no program can name is shown by its bytes.
Unnamable(p) == TargetArg(code[p].f) # 0 /\ Target(code[p]) \notin 0..65535

\* Uncovered stretches are listed in rows of 16 from their start, without
\* those rows that are all zero.
SortedPos == SetToSortSeq(Pos, <)
Gaps == LET a == FoldLeft(LAMBDA x, p : IF p > x.at THEN [g |-> Append(x.g, <<x.at, p - 1>>), at |-> code[p].next]
                                        ELSE [x EXCEPT !.at = Max2(@, code[p].next)],
                          [g |-> <<>>, at |-> 0], SortedPos)
        IN IF a.at < cs.len THEN Append(a.g, <<a.at, cs.len - 1>>) ELSE a.g
RowsOf(g) == {[a |-> g[1] + 16 * k, b |-> Min2(g[1] + 16 * k + 15, g[2])] : k \in 0..((g[2] - g[1]) \div 16)}
DataPos == UNION {UNION {IF \E q \in r.a..r.b : Byte(q) # 0 THEN r.a..r.b ELSE {} : r \in RowsOf(Gaps[j])}
                  : j \in 1..Len(Gaps)}

------------------------------------------------------------------------------
\* What the listing says.
Stmts(typ) == {j \in 1..Len(prog) : prog[j].t = typ}
Rows == Stmts("byte")
RowSpan(j) == lay[j]..(lay[j] + Len(prog[j].v) - 1)
\* Rows of bytes that stand for an instruction.
Shown(j) == lay[j] \in Pos /\ Unnamable(lay[j]) /\ RowSpan(j) = lay[j]..(code[lay[j]].next - 1)
Env == [g |-> glob, l |-> loc[""], scoped |-> FALSE]

\* Operand values of an instruction statement, for targets the address.
ArgVal(a) == IF a.t = "ri" THEN a.v ELSE Eval(a.e, Env).v
Operand(d, k) == IF IsTarget(Forms[d.f].args[k]) THEN Target(d) ELSE d.v[k]
SameInstr(s, d) == /\ s.t = "instr" /\ s.f = d.f
                   /\ \A k \in 1..Len(s.args) : ArgVal(s.args[k]) = Operand(d, k)

\* Notes: comment lines before, and comments on, a statement's line.
Note(line, mark) == \E k \in 1..(Len(line) - Len(mark) + 1) : SubSeq(line, k, k + Len(mark) - 1) = mark
NoteAt(line, mark) == CHOOSE k \in 1..(Len(line) - Len(mark) + 1) : SubSeq(line, k, k + Len(mark) - 1) = mark
Positions(s) == LET parts == Split(s, 44) IN
  [k \in 1..Len(parts) |-> HexVal(SelectSeq(parts[k], LAMBDA ch : ch # 32))]
Overlaps == <<79, 118, 101, 114, 108, 97, 112, 115, 32, 119, 105, 116, 104, 58>>
Arrived == <<65, 114, 114, 105, 118, 101, 100, 32, 102, 114, 111, 109, 58>>
NotedBy(line, mark) == LET k == NoteAt(line, mark) IN Positions(SubSeq(line, k + Len(mark), Len(line)))
SetOf(s) == {s[k] : k \in 1..Len(s)}
LineOf(j) == RawLines[prog[j].sp.l]
\* Lines between the previous emitting statement and statement j.
Emits(j) == prog[j].t \in {"instr", "byte"}
Before(j) == LET prev == CHOOSE h \in 0..(j - 1) : (h = 0 \/ Emits(h)) /\ \A g \in (h + 1)..(j - 1) : ~Emits(g)
                 from == IF prev = 0 THEN 1 ELSE prog[prev].sp.l + 1
             IN {RawLines[k] : k \in from..(prog[j].sp.l - 1)}

OverlapSet(p) == {q \in Pos : q # p /\ q < code[p].next /\ p < code[q].next}
OverlapNoted(j) == LET ns == {l \in Before(j) : Note(l, Overlaps)}  want == OverlapSet(lay[j]) IN
  IF want = {} THEN ns = {} ELSE \E l \in ns : ns = {l} /\ SetOf(NotedBy(l, Overlaps)) = want
                                              /\ Len(NotedBy(l, Overlaps)) = Cardinality(want)
ArrivedNoted(j) == LET l == LineOf(j)  want == Into(lay[j]) IN
  IF ~cs.arrived \/ want = {} THEN ~Note(l, Arrived)
  ELSE Note(l, Arrived) /\ SetOf(NotedBy(l, Arrived)) = want /\ Len(NotedBy(l, Arrived)) = Cardinality(want)

\* Bytes are shown as characters too, if any of them is one.
Char(b) == IF b \in 32..126 THEN <<b>> ELSE IF b = 9 THEN <<92, 116>> ELSE IF b = 10 THEN <<92, 110>>
           ELSE IF b = 13 THEN <<92, 114>> ELSE <<46>>
Chars(P) == FoldLeft(LAMBDA a, p : a \o Char(Byte(p)), <<59, 32>>, SetToSortSeq(P, <))
EndsWith(line, s) == Len(line) >= Len(s) /\ SubSeq(line, Len(line) - Len(s) + 1, Len(line)) = s
CharsShown(j) == LET l == LineOf(j) IN
  IF \E p \in RowSpan(j) : Byte(p) \in 32..126 THEN EndsWith(l, Chars(RowSpan(j))) ELSE ~Note(l, <<59>>)
EntryMark == <<69, 110, 116, 114, 121, 32, 112, 111, 105, 110, 116>>
EntryNoted(j) == (\E l \in Before(j) : Note(l, EntryMark)) = (\E k \in 1..Len(cs.entry) : cs.entry[k] = lay[j])

\* The special function registers and the bits of the program status word.
Sfr == [
  acc |-> 256, psw |-> 257, b |-> 258, c |-> 259, trl |-> 260, trh |-> 261,
  sp |-> 262, pcon |-> 263, ie |-> 264, ip |-> 265, ext |-> 269, ocr |-> 270,
  t0con |-> 272, t0prr |-> 273, t0l |-> 274, t0lr |-> 275, t0h |-> 276, t0hr |-> 277,
  t1cnt |-> 280, t1lc |-> 282, t1l |-> 283, t1lr |-> 283, t1hc |-> 284, t1h |-> 285,
  t1hr |-> 285, mcr |-> 288, stad |-> 290, cnr |-> 291, tdr |-> 292, xbnk |-> 293,
  vccr |-> 295, scon0 |-> 304, sbuf0 |-> 305, sbr |-> 306, scon1 |-> 308, sbuf1 |-> 309,
  p1 |-> 324, p1ddr |-> 325, p1fcr |-> 326, p3 |-> 332, p3ddr |-> 333, p3int |-> 334,
  fpr |-> 340, p7 |-> 348, i01cr |-> 349, i23cr |-> 350, isl |-> 351, mplsw |-> 352,
  mplsta |-> 353, mplrst |-> 354, vsel |-> 355, vrmad1 |-> 356, vrmad2 |-> 357, vtrbf |-> 358,
  vlreg |-> 359, btcr |-> 383, xram |-> 384, cy |-> 7, ac |-> 6, irbk1 |-> 4,
  irbk0 |-> 3, ov |-> 2, rambk0 |-> 1, p |-> 0]
RegistersNamed == \A nm \in DOMAIN Sfr \cap DOMAIN glob : glob[nm].v = Sfr[nm]
\* Operands are shown under these names wherever they have one.
PSW == 257
RegNames == {nm \in DOMAIN Sfr : Sfr[nm] > 255}
RegValues == {Sfr[nm] : nm \in RegNames}
BitNames == DOMAIN Sfr \ RegNames
BitValues == {Sfr[nm] : nm \in BitNames}
Called(a, names) == a.e.t = "name" /\ a.e.n \in names
WellNamed(s, d) == \A k \in 1..Len(s.args) :
  LET kind == Forms[d.f].args[k]  v == d.v[k] IN
  CASE kind = "d9" -> v \in RegValues => Called(s.args[k], RegNames)
    [] kind = "b3" -> Called(s.args[k], BitNames) = (d.v[1] = PSW /\ v \in BitValues)
    [] OTHER -> TRUE

------------------------------------------------------------------------------
\* The three properties.
Assembled == ph = "done" /\ ~err.bad
DecodeAgrees ==
  LET instrs == Stmts("instr")  at == {lay[j] : j \in instrs} IN
  /\ RegistersNamed
  /\ \A j \in instrs : lay[j] \in Pos => SameInstr(prog[j], code[lay[j]]) /\ WellNamed(prog[j], code[lay[j]])
  /\ Settled => \A p \in Pos : p \in at \/ (Unnamable(p) /\ \E j \in Rows : lay[j] = p /\ Shown(j))
ReachAgrees ==
  LET instrs == Stmts("instr")
      shown == {j \in Rows : Shown(j)}
      data == Rows \ shown
  IN /\ \A j \in instrs \cup Rows : EntryNoted(j)
     /\ \A j \in Rows : CharsShown(j)
     /\ {lay[j] : j \in instrs} = {p \in Pos : ~Unnamable(p)}
     /\ {lay[j] : j \in shown} = {p \in Pos : Unnamable(p)}
     /\ Cardinality({lay[j] : j \in instrs \cup shown}) = Cardinality(instrs \cup shown)
     /\ UNION {RowSpan(j) : j \in data} = DataPos
     /\ {lay[j] : j \in Stmts("label")} = Aimed \cap Pos
     /\ Cardinality(Stmts("label")) = Cardinality(Aimed \cap Pos)
     /\ \A j \in instrs \cup shown : OverlapNoted(j)
     /\ \A j \in instrs : ArrivedNoted(j)
     /\ \A j \in data : ~\E l \in Before(j) : Note(l, Overlaps)
     /\ cs.columns => \A j \in instrs \cup Rows : Column(LineOf(j)) = lay[j]
     /\ ~cs.columns => \A k \in 1..Len(RawLines) : ~HasColumn(RawLines[k])
RoundAgrees == /\ maxp = cs.len /\ SameImage(out, img)
               /\ cs.obs.back.kind \in {"ok", "none"}
               /\ cs.obs.back.kind = "ok" =>
                    cs.obs.back.len = cs.len /\ SameImage(ImageFrom(cs.obs.back.runs), img)

\* A truncated instruction is an error, everything else is listed.
Agrees ==
  IF dph = "short" THEN cs.obs.kind = "fail"
  ELSE /\ cs.obs.kind = "ok"
       /\ CASE cs.mode = "decode" -> ~err.bad /\ DecodeAgrees
            [] cs.mode = "reach" -> ~err.bad /\ (Settled => ReachAgrees)
            [] cs.mode = "round" -> ~err.bad /\ RoundAgrees

Bytes(S) == [p \in S |-> Byte(p)]
Expected == [cmd |-> "disassemble", mode |-> cs.mode, fails |-> dph = "short", listing |-> err,
             code |-> [k \in 1..Len(SortedPos) |-> <<SortedPos[k], Forms[code[SortedPos[k]].f].m>>],
             data |-> IF cs.len < 2000 THEN DataPos ELSE {}, labels |-> Aimed \cap Pos]
Report == PrintT("MISMATCH " \o ToString(cs.id)) /\ PrintT("EXPECTED " \o ToJson(Expected))
Conforms == ph = "done" => (Agrees \/ (Report /\ FALSE))

\* The trace decodes only inside the image and finds every target.
Reached == dph = "asm" =>
  /\ Covered \subseteq 0..(cs.len - 1)
  /\ \A e \in edges : e[1] \in Pos /\ (e[2] \in 0..(cs.len - 1) => e[2] \in Pos)
=============================================================================
