------------------------------ MODULE Session ------------------------------
(***************************************************************************)
(* A history of commands on a file system.                                 *)
(*                                                                         *)
(* What a command produces is a function of what it is asked (command and  *)
(* options) and of the contents of its inputs, and of nothing else.  This  *)
(* module does not say which function (other modules do): memo collects    *)
(* what has been produced so far, and every later run must agree with it.  *)
(* What it does say is which runs must fail, what happens to the file      *)
(* system, and the laws that tie results together.                         *)
(*                                                                         *)
(* Contents are numbers, 0 is "no file"; cs.len[x] and cs.text[x] give the *)
(* length of content x and whether it is UTF-8.                            *)
(*   cs.files  <<[c |-> path components, x |-> content]>> at the start     *)
(*   cs.dirs   the directories                                             *)
(*   cs.steps  what is done, one after the other:                          *)
(*     cmd     "edit": path c gets content x from outside, or else the     *)
(*             command that is run                                         *)
(*     opts    its options, other than paths;  valid: whether they are     *)
(*             options the program knows                                   *)
(*     cwd     working directory, input and out the paths as given         *)
(*     to      "file"   writes the file out (or, for vmi with out empty,   *)
(*                      the input's name with another ending)              *)
(*             "stdout" prints, "saved": what it prints is saved as out if *)
(*                      the command succeeds                               *)
(*             "full"   prints to a device without room                    *)
(*     also    further files the result depends on                         *)
(*     obs     [rc, panic, said (something on the error stream), stdout,   *)
(*              changes: <<[c, x]>>, x = -1 for a new directory];          *)
(*             rc = -1 when it did not end                                 *)
(***************************************************************************)
EXTENDS Util, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)

VARIABLES cs, k,   \* the case and the number of steps done
          fs,      \* path -> content
          memo,    \* <<command, options, contents>> -> content, or 0 for failure
          last     \* what the last step should have done: [ok, known, printed, changes]
vars == <<cs, k, fs, memo, last>>

IsDirectory(c) == \E j \in 1..Len(cs.dirs) : cs.dirs[j] = c
INSTANCE Paths WITH IsDir <- IsDirectory

Content(c) == IF c \in DOMAIN fs THEN fs[c] ELSE 0
Set(f, c, x) == IF x = 0 THEN [d \in (DOMAIN f) \ {c} |-> f[d]]
                ELSE [d \in (DOMAIN f) \cup {c} |-> IF d = c THEN x ELSE f[d]]

ReadsText == {"assemble", "expand"}
Prints == {"expand", "icon", "image"}          \* unless image is told a file

OutGiven(s) == IF s.cmd = "vmi" /\ s.out = <<>> THEN Stem(s.input) \o <<46, 118, 109, 105>> ELSE s.out
Input(s) == Resolve(s.cwd, s.input)
Out(s) == Resolve(s.cwd, OutGiven(s))
Readable(s) == /\ Input(s).ok /\ Content(Input(s).c) # 0
               /\ s.cmd \in ReadsText => cs.text[Content(Input(s).c)]
Writable(s) == CASE s.to = "file" -> CanCreate(Out(s))
                 [] s.to = "full" -> FALSE
                 [] OTHER -> TRUE
\* Everything the result may depend on.  A VMI file also holds a name.
Key(s) == <<s.cmd, s.opts,
            <<Content(Input(s).c)>> \o [j \in 1..Len(s.also) |-> Content(s.also[j])],
            IF s.cmd = "vmi" THEN FileName(s.input) ELSE <<>> >>

Start(c) == /\ cs = c /\ k = 0 /\ memo = << >> /\ last = [t |-> "start"]
            /\ fs = [d \in {c.files[j].c : j \in 1..Len(c.files)} |->
                       (c.files[CHOOSE j \in 1..Len(c.files) : c.files[j].c = d]).x]
Init == \E j \in 1..Len(Cases) : Start(Cases[j])

Step == cs.steps[k + 1]

\* A change from outside.
Edit == /\ k < Len(cs.steps) /\ Step.cmd = "edit"
        /\ fs' = Set(fs, Step.c, Step.x) /\ k' = k + 1 /\ last' = [t |-> "edit"]
        /\ UNCHANGED <<cs, memo>>

\* A run that has to fail, whatever the inputs hold.
Hopeless(s) == ~s.valid \/ ~Readable(s) \/ ~Writable(s)
RunHopeless == /\ k < Len(cs.steps) /\ Step.cmd # "edit" /\ Hopeless(Step)
               /\ last' = [t |-> "run", s |-> Step, x |-> 0, changes |-> {}, printed |-> 0]
               /\ k' = k + 1 /\ UNCHANGED <<cs, fs, memo>>

\* A run that fails (x = 0) or produces content x: the remembered one if this
\* was asked before, and any otherwise.
Produce(s, x) ==
  LET file == IF s.to \in {"file", "saved"} /\ x # 0 THEN {Out(s).c} ELSE {}
      printed == IF s.to # "file" THEN x ELSE 0
  IN /\ fs' = IF file = {} THEN fs ELSE Set(fs, Out(s).c, x)
     /\ last' = [t |-> "run", s |-> s, x |-> x, printed |-> printed,
                 changes |-> {[c |-> c, x |-> x] : c \in {d \in file : Content(d) # x}}]
Observed(s) ==
  IF s.obs.rc # 0 THEN 0
  ELSE IF s.to # "file" THEN s.obs.stdout
  ELSE LET ch == {j \in 1..Len(s.obs.changes) : s.obs.changes[j].c = Out(s).c} IN
       IF ch # {} THEN s.obs.changes[CHOOSE j \in ch : TRUE].x ELSE Content(Out(s).c)
Run == /\ k < Len(cs.steps) /\ Step.cmd # "edit" /\ ~Hopeless(Step)
       /\ LET key == Key(Step)
              x == IF key \in DOMAIN memo THEN memo[key] ELSE Observed(Step)
          IN /\ Produce(Step, x)
             /\ memo' = IF key \in DOMAIN memo THEN memo
                        ELSE [q \in (DOMAIN memo) \cup {key} |-> IF q = key THEN x ELSE memo[q]]
       /\ k' = k + 1 /\ UNCHANGED cs

Done == k = Len(cs.steps) /\ UNCHANGED vars
Next == Edit \/ RunHopeless \/ Run \/ Done
RunView == <<cs.id, k>>

------------------------------------------------------------------------------
TypeOK == /\ k \in 0..Len(cs.steps)
          /\ \A c \in DOMAIN fs : fs[c] \in 1..Len(cs.len)
\* Only the output of a command changes, and nothing if it fails.
OnlyOutput == last.t = "run" =>
  /\ \A ch \in last.changes : last.s.to \in {"file", "saved"} /\ ch.c = Out(last.s).c
  /\ last.x = 0 => last.changes = {}

\* The laws, for everything produced so far.
Runs(cmd) == {q \in DOMAIN memo : q[1] = cmd}
Outcome(cmd, opts, in) == {memo[q] : q \in {r \in Runs(cmd) : r[2] = opts /\ r[3] = in}}
Assembled(in) == Outcome("assemble", "", in)
\* Assembling a disassembly gives the original.
RoundTrip == \A q \in Runs("disassemble") :
  memo[q] # 0 /\ q[2] \notin ToSet(cs.columns) => Assembled(<<memo[q]>>) \subseteq {q[3][1]}
\* Assembling an expansion gives what assembling the program gives.
Expansion == \A q \in Runs("expand") :
  IF memo[q] = 0 THEN Assembled(q[3]) \subseteq {0}
  ELSE LET y == Assembled(<<memo[q]>>)  z == Assembled(q[3]) \ {0} IN y = {} \/ z = {} \/ y = z
\* Pictures are printed as text that can be assembled.
Printed == \A q \in Runs("icon") \cup Runs("image") :
  memo[q] # 0 /\ q[2] \notin ToSet(cs.json) => 0 \notin Assembled(<<memo[q]>>)
VmiSize == \A q \in Runs("vmi") : memo[q] # 0 => cs.len[memo[q]] = 108

------------------------------------------------------------------------------
(* What was seen of the last step. *)
Agrees(s, o) ==
  /\ o.rc \in {0, 1} /\ ~o.panic
  /\ (o.rc = 0) = (last.x # 0)
  /\ o.rc = 1 => o.said /\ o.stdout = 0
  /\ s.to = "file" \/ s.to = "full" \/ o.stdout = last.printed
  /\ {o.changes[j] : j \in 1..Len(o.changes)} = last.changes
Report == PrintT("MISMATCH " \o ToString(cs.id))
          /\ PrintT("EXPECTED " \o ToJson([step |-> k, last |-> last]))
Check == last.t = "run" => Agrees(last.s, last.s.obs)
Agreed == (Check /\ RoundTrip /\ Expansion /\ Printed /\ VmiSize)
Conforms == Agreed \/ (Report /\ FALSE)
\* The same, but goes on after a mismatch.
Listed == Agreed \/ Report

\* What TLC shows of the states that lead to an error.
Where == [id |-> cs.id, k |-> k]
=============================================================================
