-------------------------------- MODULE Diag --------------------------------
(***************************************************************************)
(* What a rejected program's diagnostic shows.  A location is printed as   *)
(* a block: path, line, column and end column, the source line, and a line *)
(* that underlines the range; then one block for every macro call that led *)
(* there.  Message texts are not specified.                                *)
(***************************************************************************)
EXTENDS Asm

\* Paths inside the working directory are shown relative to it.
JoinStr(c) == FoldLeft(LAMBDA a, x : IF a = "" THEN x ELSE a \o "/" \o x, "", c)
Shown(p) ==
  IF p.abs /\ Len(p.c) > Len(cs.cwd) /\ SubSeq(p.c, 1, Len(cs.cwd)) = cs.cwd
  THEN JoinStr(SubSeq(p.c, Len(cs.cwd) + 1, Len(p.c)))
  ELSE IF p.abs THEN "/" \o JoinStr(p.c) ELSE JoinStr(p.c)

\* Source line l (from 1) of a text, without its line end.
SourceLine(src, l) ==
  LET ls == Split(src, 10)  x == ls[l] IN
  IF l < Len(ls) /\ x # <<>> /\ LastOf(x) = 13 THEN SubSeq(x, 1, Len(x) - 1) ELSE x
\* First code points of the user-perceived characters of a line.
LoneAt(x, j) == j = Len(x) \/ x[j + 1] \notin Extend
Indent(x) == [k \in 1..Len(x) |-> IF x[k] \in WS /\ LoneAt(x, k) THEN x[k] ELSE 32]
Leads(x) == SelectSeq([k \in 1..Len(x) |-> k], LAMBDA k : k = 1 \/ x[k] \notin Extend)

\* The underline below line x for columns s up to e.
Underline(x, s, e) ==
  LET g == Leads(x)  ind == Indent(x)  w == Len(g)
      lead == [k \in 1..Min2(s, w) |-> ind[g[k]]]
  IN IF w > s THEN lead \o Rep(94, Min2(Max2(e - s, 1), w - s))
     ELSE lead \o Rep(32, s - w) \o Rep(94, IF s = e THEN 1 ELSE Max2(e - s, 0))

Block(sp, nested) ==
  LET f == files[sp.f]  x == SourceLine(cs.files[f.src].d, sp.l) IN
  [nested |-> nested, path |-> Shown(f.p), l |-> sp.l, c |-> sp.c, ec |-> sp.ec,
   quote |-> x, mark |-> Underline(x, sp.c, sp.ec)]
RECURSIVE Chain(_, _)
Chain(sp, nested) == <<Block(sp, nested)>> \o (IF sp.par = <<>> THEN <<>> ELSE Chain(sp.par[1], TRUE))
Blocks == FlattenSeq([j \in 1..Len(err.locs) |-> Chain(err.locs[j], FALSE)])

(***************************************************************************)
(* Agreement with an observed diagnostic: the same places in the same      *)
(* order and, at level "full", the same quotes and underlines (a message   *)
(* may follow an underline).                                               *)
(***************************************************************************)
SamePlace(b, o) == /\ b.nested = o.nested /\ b.path = o.path /\ b.l = o.l /\ b.c = o.c /\ b.ec = o.ec
MarkAgrees(m, o) == \/ m = o
                    \/ /\ Len(o) > Len(m) /\ SubSeq(o, 1, Len(m)) = m /\ o[Len(m) + 1] = 32
SameShow(b, o) == b.quote = o.quote /\ MarkAgrees(b.mark, o.mark)
DiagAgrees(o, full) == LET b == Blocks IN
  /\ Len(b) = Len(o)
  /\ \A j \in 1..Len(b) : SamePlace(b[j], o[j]) /\ (full => SameShow(b[j], o[j]))
=============================================================================
