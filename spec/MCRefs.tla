------------------------------- MODULE MCRefs -------------------------------
(* The expressions of MCExpr with their free references.                    *)
(*   Suffices: a scope restricted to the root names of the free references  *)
(*   gives the same result.                                                 *)
(*   Needed: names that are not free references make no difference at all.  *)
EXTENDS MCExpr, Refs

RECURSIVE ToSeq(_)
ToSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o ToSeq(S \ {x})
EmitRefs == LET r == Eval(e, CtxK) IN
  CSVWrite("%1$s", <<ToJson([ast |-> e, ctx |-> CtxK, vars |-> ToSeq(Refs(e, {})), want |-> IF r[2] = "any" THEN <<"any">> ELSE Want(r)])>>, IOEnv.OUT)
Suffices == Eval(e, Restrict(CtxK, Roots(Refs(e, {})))) = Eval(e, CtxK)
=============================================================================
