------------------------------ MODULE FmtTool ------------------------------
(* The formatting command as a state machine over its arguments.            *)
(* A file: [kind, valid, canon, fvalid]: what the path names, whether the     *)
(* text parses, whether it is its own formatting, whether the formatted text  *)
(* parses. kind: "file", "missing", "dir", "noread", "nowrite".              *)
(* Options: [c |-> check only valid text is formatted, w |-> overwrite,       *)
(*           n |-> no change is tolerated].                                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Start(files) == [k |-> 1, status |-> "run", bad |-> FALSE, open |-> FALSE,
                 disk |-> [i \in 1..Len(files) |-> IF files[i].canon THEN "fmt" ELSE "orig"],
                 out |-> <<>>, changed |-> {}, named |-> {}]
ValidNow(f, d) == IF d = "orig" THEN f.valid ELSE IF f.canon THEN f.valid ELSE f.fvalid

\* the text of file i (or of the standard input) is formatted
Process(s, files, o, i, stdin) ==
  LET f == files[i] d == s.disk[i] IN
  IF o.c /\ ~ ValidNow(f, d) THEN [s EXCEPT !.bad = TRUE, !.named = s.named \cup {i}]
  ELSE LET t == [s EXCEPT !.changed = IF d = "orig" THEN s.changed \cup {i} ELSE s.changed] IN
       IF ~ o.w THEN [t EXCEPT !.out = Append(s.out, i)]
       ELSE IF f.kind = "nowrite"
       THEN [t EXCEPT !.status = "stop", !.named = s.named \cup {i},
                      !.open = (d = "fmt")]     \* nothing to write: may succeed or not
       ELSE [t EXCEPT !.disk[i] = "fmt"]

\* one step: the next argument, or the end
Step(s, files, args, o) ==
  IF args = <<>> /\ s.k = 1
  THEN IF o.w THEN [s EXCEPT !.status = "stop"]
       ELSE [Process(s, files, o, 1, TRUE) EXCEPT !.k = 2]
  ELSE IF s.k > Len(args) THEN [s EXCEPT !.status = "end"]
  ELSE LET i == args[s.k] IN
       IF files[i].kind \in {"missing", "dir", "noread"}
       THEN [s EXCEPT !.status = "stop", !.named = s.named \cup {i}]
       ELSE [Process(s, files, o, i, FALSE) EXCEPT !.k = s.k + 1]

Failed(s, o) == s.status = "stop" \/ s.bad \/ (o.n /\ s.changed # {})
\* what can be observed at the end
Seen(s, o) ==
  [fail |-> Failed(s, o), disk |-> s.disk, out |-> s.out, open |-> s.open,
   named |-> s.named \cup (IF o.n /\ s.status = "end" /\ ~ s.bad THEN s.changed ELSE {})]
RECURSIVE RunFrom(_, _, _, _)
RunFrom(s, files, args, o) == IF s.status # "run" THEN s ELSE RunFrom(Step(s, files, args, o), files, args, o)
Outcome(files, args, o) == Seen(RunFrom(Start(files), files, args, o), o)
=============================================================================
