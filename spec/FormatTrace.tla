----------------------------- MODULE FormatTrace ----------------------------
(* Record: [toks, spaces]: the tokens of a text and the spaces before each   *)
(* of them in the formatted text.                                            *)
EXTENDS Format, TLC, Json, IOUtils, CSV
Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, done
Emit(x) == CSVWrite("%1$s", <<ToJson(x)>>, IOEnv.OUT)
Init == i \in 1..Len(Recs) /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED i
Validate ==
  done => LET r == Recs[i] w == Layout(r.toks) IN
          IF w = r.spaces THEN TRUE ELSE Emit([i |-> i, k |-> 1, st |-> "bad", want |-> w])
=============================================================================
