----------------------------- MODULE MCFmtTool -----------------------------
(* Every run of the formatting command over few files.                       *)
EXTENDS FmtTool, Json, IOUtils, CSV
CONSTANTS Three
Real == {[kind |-> "file", valid |-> v, canon |-> c, fvalid |-> v] : v \in BOOLEAN, c \in BOOLEAN}
Odd == {[kind |-> k, valid |-> TRUE, canon |-> FALSE, fvalid |-> TRUE] : k \in {"missing", "dir", "noread", "nowrite"}}
         \cup {[kind |-> "nowrite", valid |-> FALSE, canon |-> FALSE, fvalid |-> FALSE]}
F == Real \cup Odd
Options == [c : BOOLEAN, w : BOOLEAN, n : BOOLEAN]
Runs == {<<<<f>>, a>> : f \in Real, a \in {<<>>}} \cup {<<<<f>>, a>> : f \in F, a \in {<<1>>, <<1, 1>>}}
         \cup {<<<<f, g>>, a>> : f \in F, g \in F, a \in {<<1, 2>>, <<1, 2, 1>>}}
         \cup (IF Three THEN {<<<<f, g, h>>, <<1, 2, 3>>>> : f \in F, g \in F, h \in F} ELSE {})
VARIABLES files, args, o, s
vars == <<files, args, o, s>>
Init == \E r \in Runs : files = r[1] /\ args = r[2] /\ o \in Options /\ s = Start(files)
Next == s.status = "run" /\ s' = Step(s, files, args, o) /\ UNCHANGED <<files, args, o>>
\* at every step: only given files change, only when asked to, only to their
\* formatting, and never when they are invalid and this is being checked
Safe == \A i \in 1..Len(files) :
          s.disk[i] = "fmt" /\ ~ files[i].canon =>
            o.w /\ (\E k \in 1..Len(args) : k < s.k /\ args[k] = i) /\ files[i].kind = "file" /\ (o.c => files[i].valid)
\* doing it again changes nothing
Again == s.status = "end" /\ o.w /\ args # <<>> =>
           LET fs == [i \in 1..Len(files) |-> IF s.disk[i] = "fmt" THEN [files[i] EXCEPT !.canon = TRUE, !.valid = IF files[i].canon THEN @ ELSE files[i].fvalid] ELSE files[i]]
               t == RunFrom(Start(fs), fs, args, o)
           IN t.status = "end" /\ t.changed = {} /\ t.disk = s.disk
EmitCase == s.status # "run" =>
  CSVWrite("%1$s", <<ToJson([files |-> files, args |-> args, o |-> o, want |-> Seen(s, o)])>>, IOEnv.OUT)
=============================================================================
