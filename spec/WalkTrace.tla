----------------------------- MODULE WalkTrace -----------------------------
(* Validates walks of real syntax trees.                                    *)
(* Record: [tree, got: [walk: events, all: ids, told: as many problems      *)
(* returned as the callbacks reported, and the same ones]]                  *)
EXTENDS Walk, Json, IOUtils, CSV
Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, done
vars == <<i, done>>
Emit(x) == CSVWrite("%1$s", <<ToJson(x)>>, IOEnv.OUT)
Init == i \in 1..Len(Recs) /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED i
        /\ LET r == Recs[i]
               w == [walk |-> WalkOk(r.tree, r.got.walk), all |-> VisitOk(r.tree, r.got.all), told |-> r.got.told]
           IN (w.walk /\ w.all /\ w.told) \/ Emit([i |-> i, k |-> 1, st |-> "bad", want |-> w])
=============================================================================
