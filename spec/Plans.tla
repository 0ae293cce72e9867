------------------------------- MODULE Plans -------------------------------
(***************************************************************************)
(* Histories worth running: two output files, a source file that is edited *)
(* and the commands that read and write them.  Contents are terms.  TLC    *)
(* prints every transition, and the driver walks through them with the     *)
(* real program; Session judges what it sees.                              *)
(***************************************************************************)
EXTENDS Sequences, TLC, Json

VARIABLES a, b, src        \* the two output files, and the version of the source
vars == <<a, b, src>>

Programs == {"v1", "v2"}   \* versions that assemble; "bad" does not
Binary(t) == t[1] \in {"prog", "other"}
Listing(t) == t[1] = "dis"
Expanded(t) == t[1] = "exp"
Text(t) == t[1] \in {"dis", "exp", "icon", "sprite"}

Init == a = <<"none">> /\ b = <<"none">> /\ src = "v1"

\* The result of a command that reads term t, <<>> for failure.
AsmText(t) == CASE t = <<"none">> -> <<>>
                [] Listing(t) -> <<t[2], t[3]>>
                [] Expanded(t) -> <<"prog", t[2]>>
                [] OTHER -> <<"data", t[1]>>
Dis(t) == IF t = <<"none">> THEN <<>> ELSE <<"dis", t[1], t[2]>>
Vmi(t) == IF t = <<"none">> THEN <<>> ELSE <<"vmi", t[1], t[2]>>

\* Commands that write to a slot, given the contents of the slots (x is the
\* one written to, y the other): [n |-> name, r |-> result].
Results(x, y) ==
  {[n |-> "asm", r |-> IF src = "bad" THEN <<>> ELSE <<"prog", src>>],
   [n |-> "asmother", r |-> <<"other", "q">>],
   [n |-> "asmbad", r |-> <<>>],
   [n |-> "asmgone", r |-> <<>>],
   [n |-> "expand", r |-> IF src = "bad" THEN <<>> ELSE <<"exp", src>>],
   [n |-> "icon", r |-> <<"icon", "p">>],
   [n |-> "sprite", r |-> <<"sprite", "p">>],
   [n |-> "iconbad", r |-> <<>>],
   [n |-> "disbad", r |-> <<>>],
   [n |-> "edit", r |-> <<"junk", "j">>]}
  \cup (IF y = <<"none">> \/ Text(y) THEN {[n |-> "asmtext", r |-> AsmText(y)]} ELSE {})
  \cup (IF y = <<"none">> \/ Binary(y) THEN {[n |-> "dis", r |-> Dis(y)], [n |-> "vmi", r |-> Vmi(y)]} ELSE {})
  \cup (IF x # <<"none">> THEN {[n |-> "remove", r |-> <<"none">>]} ELSE {})

Edge(s, n, slot) == PrintT("EDGE " \o ToJson(<< <<a, b, src>>, n, slot, s>>))

Write(x, r) == IF r = <<>> THEN x ELSE r
Next ==
  \/ \E c \in Results(a, b) : /\ a' = Write(a, c.r) /\ UNCHANGED <<b, src>> /\ Edge(<<a', b, src>>, c.n, "a")
  \/ \E c \in Results(b, a) : /\ b' = Write(b, c.r) /\ UNCHANGED <<a, src>> /\ Edge(<<a, b', src>>, c.n, "b")
  \/ \E v \in (Programs \cup {"bad"}) \ {src} :
       /\ src' = v /\ UNCHANGED <<a, b>> /\ Edge(<<a, b, v>>, "source", v)

\* The slots only ever hold what the commands above can produce.
Kinds == {"none", "junk", "prog", "other", "dis", "exp", "icon", "sprite", "vmi", "data"}
TypeOK == a[1] \in Kinds /\ b[1] \in Kinds /\ src \in Programs \cup {"bad"}
=============================================================================
