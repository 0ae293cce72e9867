-------------------------------- MODULE Vmi --------------------------------
(***************************************************************************)
(* The vmi command: reads a VMS file and writes the 108 byte VMI file that *)
(* describes it.  The file system around the command is part of the case   *)
(* (all names are sequences of code points):                               *)
(*   cs.files  <<[c |-> path components, len, head]>>, head being the      *)
(*             first bytes of the file                                     *)
(*   cs.dirs   the directories                                             *)
(*   cs.input, cs.out  paths as given; out is <<>> if there is none        *)
(*   cs.copyright, cs.game                                                 *)
(*   cs.clock  [day, sec], UTC; cs.off: minutes by which local time is     *)
(*             ahead                                                       *)
(*   cs.obs    [kind, changes: <<[c |-> path, b |-> new content]>>]        *)
(***************************************************************************)
EXTENDS Util, Dates, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)

VARIABLES cs,      \* the case
          ph,      \* the next thing to do, or "done"
          vms,     \* the VMS file, <<>> until it is read
          buf,     \* the VMI file so far
          filled,  \* the positions of it that were written
          saved,   \* <<[c, b]>>: the file written in the end
          bad      \* a reported error
vars == <<cs, ph, vms, buf, filled, saved, bad>>

------------------------------------------------------------------------------
(* Paths. *)
IsDirectory(c) == \E k \in 1..Len(cs.dirs) : cs.dirs[k] = c
INSTANCE Paths WITH IsDir <- IsDirectory
FilesAt(c) == {k \in 1..Len(cs.files) : cs.files[k].c = c}
OutPath == IF cs.out # <<>> THEN cs.out ELSE Stem(cs.input) \o <<46, 118, 109, 105>>

------------------------------------------------------------------------------
(* The file. *)
Size == 108
Cut(s, n) == [k \in 1..n |-> IF k <= Len(s) THEN s[k] ELSE 0]
LE(v, n) == [k \in 1..n |-> CASE k = 1 -> v % 256 [] k = 2 -> (v \div 256) % 256
                              [] k = 3 -> (v \div 65536) % 256 [] k = 4 -> v \div 16777216]
Header == IF cs.game THEN 512 ELSE 0              \* where the VMS header stands
Description == Header + 16

RECURSIVE Place(_, _, _)
Place(b, at, s) == IF s = <<>> THEN b ELSE Place([b EXCEPT ![at + 1] = s[1]], at + 1, Tail(s))
Put(at, s) == /\ buf' = Place(buf, at, s)
              /\ filled' = filled \o Ints(at, at + Len(s) - 1)
Go(p) == ph' = p /\ UNCHANGED cs
Fail == bad' = TRUE /\ ph' = "done" /\ UNCHANGED <<cs, vms, buf, filled, saved>>

Start(c) == /\ cs = c /\ ph = "read" /\ vms = <<>> /\ buf = Rep(0, Size) /\ filled = <<>>
            /\ saved = <<>> /\ bad = FALSE
Init == \E k \in 1..Len(Cases) : Start(Cases[k])

Read == LET p == Resolve(cs.cwd, cs.input) IN
  /\ ph = "read"
  /\ IF p.ok /\ FilesAt(p.c) # {}
     THEN /\ vms' = <<cs.files[CHOOSE k \in FilesAt(p.c) : TRUE]>>
          /\ Go("describe") /\ UNCHANGED <<buf, filled, saved, bad>>
     ELSE Fail

Describe ==
  /\ ph = "describe"
  /\ IF vms[1].len >= Description + 32
     THEN Put(4, SubSeq(vms[1].head, Description + 1, Description + 32)) /\ Go("notice") /\ UNCHANGED <<vms, saved, bad>>
     ELSE Fail

Notice == /\ ph = "notice" /\ Put(36, Cut(Utf8(cs.copyright), 32)) /\ Go("name") /\ UNCHANGED <<vms, saved, bad>>

Name == LET f == FileName(cs.input) IN
  /\ ph = "name"
  /\ Put(78, <<1, 0>> \o Cut(Utf8(Stem(f)), 8) \o Cut(Utf8(f), 12))
  /\ Go("stamp") /\ UNCHANGED <<vms, saved, bad>>

Stamp ==
  LET t == cs.clock.sec + 60 * cs.off
      day == cs.clock.day + t \div 86400
      d == Date(day)
      c == Clock(t % 86400)
  IN /\ ph = "stamp"
     /\ Put(68, LE(d.y, 2) \o <<d.m, d.d, c.h, c.mi, c.s, Weekday(day)>>)
     /\ Go("finish") /\ UNCHANGED <<vms, saved, bad>>

Finish == /\ ph = "finish"
          /\ Put(100, <<IF cs.game THEN 2 ELSE 0, 0, 0, 0>> \o LE(vms[1].len, 4))
          /\ Go("checksum") /\ UNCHANGED <<vms, saved, bad>>

\* The resource name and "SEGA", bit by bit.
Checksum == /\ ph = "checksum"
            /\ Put(0, [k \in 1..4 |-> buf[80 + k] & <<83, 69, 71, 65>>[k]])
            /\ Go("save") /\ UNCHANGED <<vms, saved, bad>>

Save == LET p == Resolve(cs.cwd, OutPath) IN
  /\ ph = "save"
  /\ IF CanCreate(p) THEN saved' = <<[c |-> p.c, b |-> buf]>> /\ Go("done") /\ UNCHANGED <<vms, buf, filled, bad>>
     ELSE Fail

Next == Read \/ Describe \/ Notice \/ Name \/ Stamp \/ Finish \/ Checksum \/ Save
        \/ (ph = "done" /\ UNCHANGED vars)
RunView == <<cs.id, ph>>

------------------------------------------------------------------------------
TypeOK == Len(buf) = Size /\ (\A k \in 1..Size : buf[k] \in 0..255) /\ Len(saved) <= 1
\* No field overlaps another, nothing but the fields is written, and all are.
FieldsApart == Cardinality(ToSet(filled)) = Len(filled)
RestIsZero == \A k \in 0..(Size - 1) : k \notin ToSet(filled) => buf[k + 1] = 0
AllFields == (ph = "done" /\ ~bad) => ToSet(filled) = (0..75) \cup (78..107)
NothingOnError == bad => saved = <<>>

\* The file system afterwards: only the file saved may differ from before, if
\* its content is new.
Same(f, s) == f.len = Size /\ SubSeq(f.head, 1, Size) = s.b
NewOnes == SelectSeq(saved, LAMBDA s : ~\E k \in FilesAt(s.c) : Same(cs.files[k], s))
Agrees(o) == /\ o.kind = (IF bad THEN "fail" ELSE "ok")
             /\ o.changes = NewOnes
Report == PrintT("MISMATCH " \o ToString(cs.id))
          /\ PrintT("EXPECTED " \o ToJson([bad |-> bad, changes |-> NewOnes]))
Conforms == ph = "done" => (Agrees(cs.obs) \/ (Report /\ FALSE))

\* What TLC shows of the states that lead to an error.
Where == [id |-> cs.id, phase |-> ph]
=============================================================================
