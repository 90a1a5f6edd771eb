------------------------------ MODULE ValueTrace ----------------------------
(* Records: [kind "val", v, got]: a value and what its source evaluates to;  *)
(* [kind "path", v, got]: a reference path and the path its source is read as *)
EXTENDS Write, TLC, Json, IOUtils, CSV
Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, done
Emit(x) == CSVWrite("%1$s", <<ToJson(x)>>, IOEnv.OUT)
Init == i \in 1..Len(Recs) /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED i
Want(r) == IF r.kind = "val" THEN Meant(r.v) ELSE r.v
RECURSIVE Eq(_, _)
Eq(a, b) ==
  IF a[1] = "obj" /\ b[1] = "obj"
  THEN IF a[2] = <<>> \/ b[2] = <<>> THEN DOMAIN a[2] = DOMAIN b[2] ELSE DOMAIN a[2] = DOMAIN b[2] /\ \A k \in DOMAIN a[2] : Eq(a[2][k], b[2][k])
  ELSE IF a[1] = "tuple" /\ b[1] = "tuple" THEN Len(a[2]) = Len(b[2]) /\ \A k \in 1..Len(a[2]) : Eq(a[2][k], b[2][k])
  ELSE a[1] = b[1] /\ a = b
Validate ==
  done => LET r == Recs[i] IN
          IF (IF r.kind = "val" THEN Eq(Want(r), r.got) ELSE r.got = r.v) THEN TRUE
          ELSE Emit([i |-> i, k |-> 1, st |-> "bad", want |-> Want(r)])
=============================================================================
