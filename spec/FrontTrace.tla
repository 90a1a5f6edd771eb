----------------------------- MODULE FrontTrace -----------------------------
(* Record: [chars, mode, ctx, got]; got is <<"err">>, <<"ok", tree>> (body)  *)
(* or <<"ok", tree, outcome>>.                                               *)
EXTENDS Front, Json, IOUtils, CSV
Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, done
Emit(x) == CSVWrite("%1$s", <<ToJson(x)>>, IOEnv.OUT)
Init == i \in 1..Len(Recs) /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED i
Validate ==
  done => LET r == Recs[i] w == FrontEnd(r.chars, r.mode) IN
          IF w[1] = "any" THEN Emit([i |-> i, st |-> "any"])
          ELSE IF w[1] = "err" THEN (IF r.got = <<"err">> THEN TRUE ELSE Emit([i |-> i, k |-> 1, st |-> "bad", want |-> <<"err">>]))
          ELSE IF r.got[1] # "ok" THEN Emit([i |-> i, k |-> 1, st |-> "bad", want |-> w])
          ELSE IF r.got[2] # w[2] THEN Emit([i |-> i, k |-> 1, st |-> "bad", want |-> w])
          ELSE IF r.mode = "body" THEN TRUE
          ELSE LET o == Outcome(w[2], r.ctx) IN
               IF o = <<"any">> \/ o = r.got[3] THEN TRUE
               ELSE Emit([i |-> i, k |-> 1, st |-> "bad", want |-> <<"ok", w[2], o>>])
=============================================================================
