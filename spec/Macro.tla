------------------------------- MODULE Macro -------------------------------
(***************************************************************************)
(* Substitution of macro arguments.  `inv` is the span of the call being   *)
(* expanded, lab maps the macro's own %-labels to fresh names, am maps its *)
(* parameters to the caller's arguments.  Everything substituted remembers *)
(* the call as the parent of its span.  Arguments keep the caller's        *)
(* meaning: the callee's labels and parameters do not apply within them.   *)
(***************************************************************************)
EXTENDS Parser

RECURSIVE Subst(_, _, _, _)
Subst(e, inv, lab, am) ==
  LET sp == WithParent(e.sp, inv) IN
  CASE e.t = "num" -> Good([e EXCEPT !.sp = sp], 0)
    [] e.t = "name" -> Good([e EXCEPT !.sp = sp], 0)
    [] e.t = "mlab" -> IF e.n \in DOMAIN lab THEN Good([t |-> "name", n |-> lab[e.n], sp |-> sp], 0)
                       ELSE Bad(<<e.sp>>)
    [] e.t = "marg" ->
         IF e.n \notin DOMAIN am THEN Bad(<<e.sp>>)
         ELSE LET a == am[e.n] IN
           CASE a.t = "ex" -> Subst(a.e, inv, <<>>, <<>>)
             [] a.t = "marg" -> Bad(<<WithParent(a.sp, inv)>>)
             [] OTHER -> Bad(<<WithParent(e.sp, a.sp)>>)
    [] e.t = "una" -> LET a == Subst(e.a, inv, lab, am) IN
                      IF ~a.ok THEN a ELSE Good([e EXCEPT !.sp = sp, !.a = a.v], 0)
    [] e.t = "bin" -> LET a == Subst(e.a, inv, lab, am) IN
                      IF ~a.ok THEN a
                      ELSE LET b == Subst(e.b, inv, lab, am) IN
                           IF ~b.ok THEN b ELSE Good([e EXCEPT !.sp = sp, !.a = a.v, !.b = b.v], 0)

SubstArg(a, inv, lab, am) ==
  CASE a.t = "marg" -> IF a.n \in DOMAIN am THEN Good(am[a.n], 0) ELSE Bad(<<a.sp>>)
    [] a.t \in {"imm", "ex"} -> LET r == Subst(a.e, inv, lab, am) IN
                                IF ~r.ok THEN r ELSE Good([t |-> a.t, e |-> r.v, sp |-> r.v.sp], 0)
    [] OTHER -> Good(a, 0)
SubstArgs(args, inv, lab, am) ==
  FoldLeft(LAMBDA a, x : IF ~a.ok THEN a
                         ELSE LET r == SubstArg(x, inv, lab, am) IN
                              IF r.ok THEN Good(Append(a.v, r.v), 0) ELSE r, Good(<<>>, 0), args)

\* The %-labels of a macro body: fresh names, or the first repeated one.
OwnLabels(body) == SelectSeq(body, LAMBDA s : s.t = "mlab")
Repeated(labs) == {j \in 1..Len(labs) : \E h \in 1..(j - 1) : labs[h].n = labs[j].n}
Fresh(n, call) == SubSeq(n, 1, Len(n) - 1) \o "%" \o ToString(call)
FreshLabels(body, call) == LET labs == OwnLabels(body) IN
  [n \in {labs[j].n : j \in 1..Len(labs)} |-> Fresh(n, call)]
Bind(params, args) == [p \in {params[j] : j \in 1..Len(params)} |->
                        args[CHOOSE j \in 1..Len(params) : params[j] = p]]

\* A frame of the expansion: one call being replaced by its body.
\* [ok, v: frame, err]
Enter(macros, key, sp, args, call) ==
  LET m == macros[key]  rep == Repeated(OwnLabels(m.body)) IN
  IF rep # {} THEN Bad(<<OwnLabels(m.body)[CHOOSE j \in rep : \A h \in rep : j <= h].sp>>)
  ELSE Good([key |-> key, inv |-> sp, body |-> m.body, i |-> 1,
             lab |-> FreshLabels(m.body, call), am |-> Bind(m.params, args)], 0)
=============================================================================
