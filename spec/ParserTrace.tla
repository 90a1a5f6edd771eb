----------------------------- MODULE ParserTrace -----------------------------
(* Validates recorded histories of calls of a parser, one step per call.     *)
EXTENDS Parser, Json, IOUtils, CSV
Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, k, st
vars == <<i, k, st>>
Emit(x) == CSVWrite("%1$s", <<ToJson(x)>>, IOEnv.OUT)
Set(q) == {q[j] : j \in 1..Len(q)}
Init == i \in 1..Len(Recs) /\ k = 0 /\ st = [fs |-> Recs[i].fs, cache |-> NoCache]
SameObs(w, g) == w = g \/ (w[1] = "file" /\ g[1] = "file" /\ w[5] = "open" /\ SubSeq(w, 1, 4) = SubSeq(g, 1, 4))
Next == /\ k < Len(Recs[i].ops)
        /\ LET r == Do(st, Recs[i].ops[k + 1], k + 1)
               g == Recs[i].got[k + 1]
           IN IF Len(Recs[i].got) = Len(Recs[i].ops) /\ SameObs(r.obs, g.obs) /\ Set(g.listed) = Listed(r.cache) /\ Len(g.listed) = Cardinality(DOMAIN r.cache)
              THEN k' = k + 1 /\ st' = [fs |-> r.fs, cache |-> r.cache] /\ UNCHANGED i
              ELSE Emit([i |-> i, k |-> k + 1, st |-> "bad", want |-> [obs |-> r.obs, listed |-> Listed(r.cache)]]) /\ FALSE /\ UNCHANGED vars
=============================================================================
