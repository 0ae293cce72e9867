------------------------------- MODULE Check -------------------------------
(***************************************************************************)
(* Conformance: every case carries what the real program was observed to   *)
(* do (obs), and the behaviour of the specification must end the same way. *)
(*   obs.kind  "ok"     success; obs.len and obs.runs give the output,     *)
(*                      obs.text a printed listing                         *)
(*             "fail"   a reported error; obs.blocks are its locations     *)
(*             other    crash, hang, wrong status ...: never allowed       *)
(*   mode      "bytes"  judge success or failure and the output            *)
(*             "loc"    and the places a diagnostic points at              *)
(*             "full"   and the lines it shows                             *)
(*   cmd       "asm"    assemble                                           *)
(*             "expand" expand; the printed listing is then assembled by   *)
(*                      the specification ("again") and must give the same *)
(*                      image as the program itself; so it must in the     *)
(*                      real assembler (obs.first, obs.back)               *)
(*             "pic"    a picture printed as assembly text, which must     *)
(*                      assemble to the picture's encoding, or as JSON     *)
(*                      (cs.json), which must hold its pixels              *)
(***************************************************************************)
EXTENDS Diag, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)

\* The encoding a picture command must print.
PictureOf(nm) == LET f == {k \in 1..Len(cs.pics) : cs.pics[k].n = nm} IN
                 IF f = {} THEN None ELSE [t |-> "pic", d |-> cs.pics[CHOOSE k \in f : TRUE].d]
Printed == cs.pic.kind \in {"json", "json-pretty"}
Encoding ==
  LET im == PictureOf(cs.pic.main) IN
  IF im.t = "none" THEN [ok |-> FALSE, v |-> <<>>]
  ELSE IF cs.pic.kind = "icon" THEN
    LET eye == IF cs.pic.eye = "" THEN <<>> ELSE <<PictureOf(cs.pic.eye)>> IN
    IF eye # <<>> /\ eye[1].t = "none" THEN [ok |-> FALSE, v |-> <<>>]
    ELSE IF cs.pic.speed \notin 0..65535 THEN [ok |-> FALSE, v |-> <<>>]
    ELSE Icon(im.d, cs.pic.speed, IF eye = <<>> THEN <<>> ELSE <<eye[1].d>>)
  ELSE IF Printed THEN [ok |-> TRUE, v |-> <<>>]
  ELSE Sprite(im.d, cs.pic.kind = "1bit-asm-masked", TRUE)

\* A picture printed as JSON is a list of frames, each a number of
\* milliseconds (as a fraction; 0/0 in a still picture) and its pixels.
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
SameTime(a, b) == IF a[2] = 0 \/ b[2] = 0 THEN a = b
                  ELSE LET x == Gcd(a[1], a[2]) y == Gcd(b[1], b[2]) IN
                       a[1] \div x = b[1] \div y /\ a[2] \div x = b[2] \div y
SameFrame(im, k, f) ==
  /\ f.rows = [r \in 1..Len(im.frames[k]) |-> [x \in 1..Len(im.frames[k][r]) |-> im.pal[im.frames[k][r][x]]]]
  /\ SameTime(f.delay, im.delays[k])
SamePicture(im, fs) == Len(fs) = Len(im.frames) /\ \A k \in 1..Len(fs) : SameFrame(im, k, fs[k])

Init == \E k \in 1..Len(Cases) : Start(Cases[k])

\* The listing printed by expand is assembled in turn.
WasExpanded == loc # <<>>
Shape(s) == CASE s.t = "instr" -> <<"instr", s.f>>
              [] s.t \in {"org", "text", "string"} -> <<s.t, s.n>>
              [] s.t = "word" -> <<"word", Len(s.v)>>
              [] OTHER -> <<s.t, 0>>
\* Included bytes and pictures are printed as any data that denote them.
Skeleton(loose) == SelectSeq([j \in 1..Len(prog) |-> Shape(prog[j])], LAMBDA s : s[1] \notin loose)
HasBin == \E j \in 1..Len(prog) : prog[j].t = "bin"
Loose == {"byte", "bin"} \cup IF HasBin THEN {"word"} ELSE {}
Again ==
  /\ ph = "done" /\ cs.cmd = "expand" /\ ~err.bad /\ cs.obs.kind = "ok"
  /\ cs' = [id |-> cs.id, cmd |-> "again", mode |-> cs.mode, main |-> <<108>>, cwd |-> cs.cwd, dirs |-> <<>>,
            files |-> << [c |-> Append(cs.cwd, "l"), t |-> "src", d |-> cs.obs.text] >>,
            obs |-> cs.obs, image |-> out, len |-> maxp, loose |-> Loose, skeleton |-> Skeleton(Loose)]
  /\ ph' = "load" /\ n' = 0 /\ files' = <<>> /\ inc' = <<>> /\ toks' = <<>>
  /\ lns' = <<>> /\ macros' = <<>> /\ stmts' = <<>> /\ stk' = <<>> /\ calls' = 0 /\ prog' = <<>>
  /\ i' = 1 /\ pos' = 0 /\ maxp' = 0 /\ cur' = "" /\ glob' = <<>> /\ loc' = <<>> /\ lay' = <<>>
  /\ out' = <<>> /\ err' = OK
SameProgram == /\ ~err.bad /\ maxp = cs.len /\ SameImage(out, cs.image)
               /\ macros = <<>> /\ calls = 0 /\ Len(files) = 1
               /\ ~HasBin /\ Skeleton(cs.loose) = cs.skeleton
\* What the real assembler makes of the program and of its expansion.
SameOutput(o) == o.first.kind = "ok" => o.back.kind = "ok" /\ o.back.len = o.first.len /\ o.back.runs = o.first.runs

Done == ph = "done" /\ ~(cs.cmd = "expand" /\ ~err.bad /\ cs.obs.kind = "ok") /\ UNCHANGED <<vars>>
NextOrDone == Next \/ Again \/ Done
RunView == <<cs.id, cs.cmd, ph, n>>

ImageFrom(runs) == FoldLeft(LAMBDA a, r : Overwrite(a, r[1], r[2]), <<>>, runs)
OutputAgrees(o) == o.len = maxp /\ SameImage(ImageFrom(o.runs), out)
Rejected(o) == /\ o.kind = "fail"
               /\ (cs.mode \in {"loc", "full"} => DiagAgrees(o.blocks, cs.mode = "full"))

Agrees(o) ==
  CASE cs.cmd = "asm" -> IF err.bad THEN Rejected(o) ELSE o.kind = "ok" /\ OutputAgrees(o)
    [] cs.cmd = "expand" -> IF WasExpanded THEN o.kind = "ok" ELSE Rejected(o)
    [] cs.cmd = "again" -> SameProgram /\ SameOutput(o)
    [] cs.cmd = "pic" -> LET e == Encoding IN
         IF ~e.ok THEN o.kind = "fail"
         ELSE IF Printed THEN o.kind = "ok" /\ SamePicture(PictureOf(cs.pic.main).d, cs.json)
         ELSE o.kind = "ok" /\ ~err.bad /\ maxp = Len(e.v) /\ SameImage(out, Overwrite(<<>>, 0, e.v))

Expected == IF err.bad THEN [cmd |-> cs.cmd, bad |-> TRUE, blocks |-> Blocks]
            ELSE [cmd |-> cs.cmd, bad |-> FALSE, len |-> maxp, pages |-> [g \in NonZero(out) |-> out[g]]]
Report == PrintT("MISMATCH " \o ToString(cs.id)) /\ PrintT("EXPECTED " \o ToJson(Expected))
Conforms == ph = "done" => (Agrees(cs.obs) \/ (Report /\ FALSE))
=============================================================================
