-------------------------------- MODULE Mock --------------------------------
(***************************************************************************)
(* Expressions built by hand for tests of other packages: a literal value  *)
(* <<"lit", v>>, a variable <<"var", name>>, a path                        *)
(* <<"path", root, steps>> with steps <<"a", name>> or <<"i", key>>, and a *)
(* list <<"list", mocks>>. They are to be indistinguishable from parsed    *)
(* expressions by evaluation, reported variables and static analysis,      *)
(* except that a list evaluates to a list.                                 *)
(***************************************************************************)
EXTENDS Expr

RECURSIVE Way(_, _)
Way(t, steps) ==
  IF steps = <<>> THEN t
  ELSE LET s == Head(steps) IN Way(IF s[1] = "a" THEN <<"attr", t, s[2]>> ELSE <<"idx", t, <<"lit", s[2]>>>>, Tail(steps))

RECURSIVE MVal(_, _), MVars(_)
MVal(m, ctx) ==
  CASE m[1] = "lit" -> Ok(m[2])
    [] m[1] = "var" -> Lookup(ctx, m[2])
    [] m[1] = "path" -> Eval(Way(<<"var", m[2]>>, m[3]), ctx)
    [] m[1] = "list" ->
         LET vs == TLCEval([i \in 1..Len(m[2]) |-> MVal(m[2][i], ctx)])
             ts == {TypeOf(vs[i][1]) : i \in 1..Len(vs)}
         IN IF \E i \in 1..Len(vs) : vs[i][2] = "any" THEN AnyR
            ELSE IF \E i \in 1..Len(vs) : vs[i][2] = "err" THEN Err(DynVal)
            ELSE IF vs = <<>> THEN Ok(<<"list", <<"dyn">>, <<>>>>)
            \* elements of different types: not specified
            ELSE IF Cardinality(ts) # 1 \/ <<"dyn">> \in ts THEN AnyR
            ELSE Ok(<<"list", TypeOf(vs[1][1]), [i \in 1..Len(vs) |-> vs[i][1]]>>)
MVars(m) ==
  CASE m[1] = "lit" -> {}
    [] m[1] = "var" -> {<<m[2], <<>>>>}
    [] m[1] = "path" -> {<<m[2], m[3]>>}
    [] m[1] = "list" -> UNION {MVars(m[2][i]) : i \in 1..Len(m[2])}
MPath(m) == IF m[1] = "var" THEN <<m[2], <<>>>> ELSE IF m[1] = "path" THEN <<m[2], m[3]>> ELSE <<>>
NotSo == <<"no">>
MList(m) ==
  CASE m[1] = "list" -> <<"yes", [i \in 1..Len(m[2]) |-> MPath(m[2][i])]>>
    [] m[1] = "lit" /\ m[2][1] = "list" -> <<"yes", [i \in 1..Len(m[2][3]) |-> <<>>]>>
    [] m[1] = "lit" /\ m[2][1] = "tuple" -> <<"yes", [i \in 1..Len(m[2][2]) |-> <<>>]>>
    [] OTHER -> NotSo
MSeen(m, ctx) ==
  LET v == MVal(m, ctx) IN
  [val |-> IF v[2] = "any" THEN <<"any">> ELSE IF v[2] = "err" THEN <<"err">> ELSE <<"ok", v[1]>>,
   vars |-> MVars(m),
   an |-> [path |-> MPath(m), kw |-> IF MPath(m) # <<>> /\ MPath(m)[2] = <<>> THEN MPath(m)[1] ELSE "",
           call |-> NotSo, list |-> MList(m), map |-> NotSo]]
=============================================================================
