----------------------------- MODULE ExprTrace -----------------------------
(* Validates recorded evaluations of real expressions against Expr.         *)
(* Record: [ast, ctx (sequence of frames), got: <<"ok",v>> | <<"err">>].    *)
EXTENDS Expr, Json, IOUtils, CSV

Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, done
vars == <<i, done>>

Expected(r) == Eval(r.ast, r.ctx)
Agrees(r, x) ==
  IF x[2] = "err" THEN r.got[1] = "err"
  ELSE r.got = <<"ok", x[1]>>

Emit(x) == CSVWrite("%1$s", <<ToJson(x)>>, IOEnv.OUT)

Init == i \in 1..Len(Recs) /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED i
Validate ==
  done => LET r == Recs[i] x == Expected(r) IN
          IF x[2] = "any" THEN Emit([i |-> i, st |-> "any"])
          ELSE IF Agrees(r, x) THEN TRUE
          ELSE Emit([i |-> i, k |-> 1, st |-> "bad", want |-> x])
=============================================================================
