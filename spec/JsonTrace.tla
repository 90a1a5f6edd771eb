----------------------------- MODULE JsonTrace ------------------------------
(* Record: [chars, got: <<"err">> | <<"ok">> | <<"ok", value>>]              *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json, IOUtils, CSV
J == INSTANCE JsonText
Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, done
Emit(x) == CSVWrite("%1$s", <<ToJson(x)>>, IOEnv.OUT)
Init == i \in 1..Len(Recs) /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED i
Validate ==
  done => LET r == Recs[i] w == J!Seen(r.chars) IN
          IF w[1] = "any" THEN Emit([i |-> i, st |-> "any"])
          ELSE IF w[1] = r.got[1] /\ (Len(w) = 1 \/ (Len(r.got) = 2 /\ J!Matches(w[2], r.got[2]))) THEN TRUE
          ELSE Emit([i |-> i, k |-> 1, st |-> "bad", want |-> w])
=============================================================================
