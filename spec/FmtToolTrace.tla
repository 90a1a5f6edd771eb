---------------------------- MODULE FmtToolTrace ----------------------------
(* Validates recorded runs of the formatting command.                        *)
EXTENDS FmtTool, Json, IOUtils, CSV
Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, done
vars == <<i, done>>
Emit(x) == CSVWrite("%1$s", <<ToJson(x)>>, IOEnv.OUT)
Set(q) == {q[k] : k \in 1..Len(q)}
Agrees(w, g) == g.fail = w.fail /\ g.disk = w.disk /\ g.out = w.out /\ w.named \subseteq Set(g.named) /\ (w.fail \/ ~ g.noise) /\ ~ g.extra
Init == i \in 1..Len(Recs) /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED i
        /\ LET r == Recs[i]
               w == TLCEval(Outcome(r.files, r.args, r.o))
           IN IF w.open THEN Emit([i |-> i, st |-> "any"])
              ELSE ~ Agrees(w, r.got) => Emit([i |-> i, k |-> 1, st |-> "bad", want |-> w])
=============================================================================
