----------------------------- MODULE SuiteTrace -----------------------------
(* Validates recorded runs of the specification suite runner against Suite.*)
(* Record: [ts: tests, got: [seen: <<[path, bad]>>, exit]]                 *)
EXTENDS Suite, Json, IOUtils, CSV

Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, done
vars == <<i, done>>
Emit(x) == CSVWrite("%1$s", <<ToJson(x)>>, IOEnv.OUT)

Agrees(v, r) ==
  /\ Len(v) = Len(r.got.seen)
  /\ \A k \in 1..Len(v) : v[k][1] = r.got.seen[k].path /\ (v[k][2] = "any" \/ (v[k][2] = "bad") = r.got.seen[k].bad)
  /\ ExitOf(v) \in {-1, r.got.exit}

Init == i \in 1..Len(Recs) /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED i
        /\ LET v == TLCEval(Verdicts(Recs[i].ts)) IN
           IF Agrees(v, Recs[i]) THEN TRUE ELSE Emit([i |-> i, k |-> 1, st |-> "bad", want |-> [seen |-> v, exit |-> ExitOf(v)]])
=============================================================================
