----------------------------- MODULE MockTrace -----------------------------
(* Records: [mock, ctx, got: [val, vars, an]]                               *)
EXTENDS Mock, Json, IOUtils, CSV
Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, done
vars == <<i, done>>
Emit(x) == CSVWrite("%1$s", <<ToJson(x)>>, IOEnv.OUT)
Set(q) == {q[k] : k \in 1..Len(q)}
Init == i \in 1..Len(Recs) /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED i
        /\ LET r == Recs[i] w == MSeen(r.mock, r.ctx) g == r.got
           IN ((w.val \in {<<"any">>, g.val} \/ (r.mock[1] = "list" /\ <<w.val, g.val>> = <<<<"err">>, <<"any">>>>)) /\ w.vars = Set(g.vars) /\ w.an = g.an)
              \/ Emit([i |-> i, k |-> 1, st |-> "bad", want |-> w])
=============================================================================
