------------------------------- MODULE Paths -------------------------------
(***************************************************************************)
(* Paths as given to the program, resolved on a file system without links. *)
(* Names are sequences of code points; IsDir says what is a directory.     *)
(***************************************************************************)
EXTENDS Util
CONSTANT IsDir(_)

NoPath == [ok |-> FALSE, c |-> <<>>]
Enter(a, x) ==
  IF ~a.ok \/ x = <<>> THEN a
  ELSE IF ~IsDir(a.c) THEN NoPath
  ELSE IF x = <<46>> THEN a
  ELSE IF x = <<46, 46>> THEN [ok |-> TRUE, c |-> IF a.c = <<>> THEN <<>> ELSE SubSeq(a.c, 1, Len(a.c) - 1)]
  ELSE [ok |-> TRUE, c |-> Append(a.c, x)]
\* Where path s leads from directory cwd.
Resolve(cwd, s) ==
  IF s = <<>> \/ s[Len(s)] = 47 THEN NoPath
  ELSE FoldLeft(Enter, [ok |-> TRUE, c |-> IF s[1] = 47 THEN <<>> ELSE cwd], Split(s, 47))
\* A file can be created or replaced there.
CanCreate(p) == p.ok /\ p.c # <<>> /\ ~IsDir(p.c) /\ IsDir(SubSeq(p.c, 1, Len(p.c) - 1))

FileName(s) == LET p == Split(s, 47) IN p[Len(p)]
\* s without a trailing .vms
Vms == <<46, 118, 109, 115>>
Stem(s) == IF Len(s) >= 4 /\ SubSeq(s, Len(s) - 3, Len(s)) = Vms THEN SubSeq(s, 1, Len(s) - 4) ELSE s
=============================================================================
