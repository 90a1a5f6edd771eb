----------------------------- MODULE RefsTrace -----------------------------
(* Record: [ast, ctx, vars (list of paths reported), got: result of the     *)
(* evaluation with only the reported names in scope]                        *)
EXTENDS Refs, Json, IOUtils, CSV

Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, done
Emit(x) == CSVWrite("%1$s", <<ToJson(x)>>, IOEnv.OUT)

RECURSIVE ToSeq(_)
ToSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o ToSeq(S \ {x})
SetOf(s) == {s[j] : j \in 1..Len(s)}
AgreesEval(r, x) == IF x[2] = "any" THEN TRUE ELSE IF x[2] = "err" THEN r.got[1] = "err" ELSE r.got = <<"ok", x[1]>>

Init == i \in 1..Len(Recs) /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED i
Validate ==
  done => LET r == Recs[i] w == Refs(r.ast, {}) x == Eval(r.ast, r.ctx) IN
          IF SetOf(r.vars) = w /\ AgreesEval(r, x) THEN TRUE
          ELSE Emit([i |-> i, k |-> 1, st |-> "bad", want |-> [vars |-> ToSeq(w), value |-> x]])
=============================================================================
