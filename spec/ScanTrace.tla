------------------------------ MODULE ScanTrace ------------------------------
(* Record: [src (characters), mode, start <<line, col, byte>>,               *)
(*          toks: <<type, <<line,col,byte>>, <<line,col,byte>>>>]            *)
EXTENDS Scan, Json, IOUtils, CSV
Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, done
Emit(x) == CSVWrite("%1$s", <<ToJson(x)>>, IOEnv.OUT)
Init == i \in 1..Len(Recs) /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED i
Validate ==
  done => LET r == Recs[i] w == Expect(r.chars, r.mode, r.start) IN
          IF Abstain(r.chars, Tokens(r.chars, r.mode)) THEN Emit([i |-> i, st |-> "any"])
          ELSE IF w = r.got THEN TRUE
          ELSE Emit([i |-> i, k |-> 1, st |-> "bad", want |-> w])
=============================================================================
