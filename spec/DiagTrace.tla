------------------------------ MODULE DiagTrace ------------------------------
(* Validates recorded collections and printed diagnostics.                  *)
EXTENDS Diag, Json, IOUtils, CSV

Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, done
vars == <<i, done>>
Emit(x) == CSVWrite("%1$s", <<ToJson(x)>>, IOEnv.OUT)
\* what was observed is text: the harness joins the model's pieces, so the
\* comparison is of pieces cut by the model's own lengths
RECURSIVE Text(_)
Text(ps) == IF ps = <<>> THEN "" ELSE Head(ps) \o Text(Tail(ps))
Want(R) == IF R.what = "list" THEN LET w == Seen(R.chars, Cat(R.ops)) IN [w EXCEPT !.text = Text(w.text)]
           ELSE Text(Printed(R.chars, R.d, R.opt))
Init == i \in 1..Len(Recs) /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED i
        /\ LET R == Recs[i] IN
           IF R.what = "print" /\ R.opt.color /\ Unmarked(R.chars, R.d) THEN Emit([i |-> i, st |-> "any"])
           ELSE LET w == TLCEval(Want(R)) IN
                IF w = R.got THEN TRUE ELSE Emit([i |-> i, k |-> 1, st |-> "bad", want |-> w])
=============================================================================
