----------------------------- MODULE MCTypeExpr -----------------------------
(***************************************************************************)
(* Pool "texts": every text of up to MaxLen fragments, as native and JSON  *)
(* type expressions; "types": every type of two levels, printed.           *)
(*   Back: the printed form of a type denotes it.                          *)
(*   Exact: what is an exact type is the same type as a constraint.        *)
(***************************************************************************)
EXTENDS TypeExpr, Json, IOUtils, CSV
CONSTANTS Pool, MaxLen

RECURSIVE Chars(_)
Chars(s) == IF s = "" THEN <<>> ELSE <<SubSeq(s, 1, 1)>> \o Chars(SubSeq(s, 2, Len(s)))
Frags == IF Pool = "nest" THEN {"list(", "set(", "map(", "tuple([", "object({", "})", "])", ")", "a=", "b=", "any", "string", ","}
         ELSE {"string", "any", "bool", "number", "list", "object", "tuple", "(", ")", "{", "}", "[", "]", "a=", "\"a\"=", "(a)=", ".a", ",", "null", "...", "1", " ", "\n"}

T0 == {<<"string">>, <<"dyn">>, <<"number">>, <<"bool">>}
T1 == T0 \cup {<<w, t>> : w \in Wraps, t \in T0}
      \cup {<<"tuple", <<>>>>, <<"object", NoFn>>} \cup {<<"tuple", <<t>>>> : t \in T0} \cup {<<"tuple", <<t, u>>>> : t, u \in T0}
      \cup {<<"object", (n :> t)>> : n \in {"a", "for", "null"}, t \in T0}
      \cup {<<"object", (n :> t) @@ (m :> u)>> : n \in {"a", "for"}, m \in {"string", "x-y"}, t, u \in {<<"string">>, <<"dyn">>}}
Big == {<<w, t>> : w \in Wraps, t \in T1} \cup {<<"tuple", <<t, u>>>> : t \in T1, u \in T0}
       \cup {<<"object", (n :> t) @@ (m :> u)>> : n \in {"b", "for"}, m \in {"list", "z"}, t \in T1, u \in {<<"bool">>, <<"tuple", <<>>>>}}

RECURSIVE FlatC(_)
FlatC(fs) == IF fs = <<>> THEN <<>> ELSE Chars(Head(fs)) \o FlatC(Tail(fs))
Text4(y) == IF Pool = "types" THEN Chars(Printed(y)) ELSE FlatC(y)
Seen(y) == LET S == TLCEval(Text4(y)) IN
  TLCEval([S |-> S, type |-> Native(S, TRUE), cons |-> Native(S, FALSE), jtype |-> InJson(S, TRUE), jcons |-> InJson(S, FALSE)])

\* x: the fragments or the type; R: what they denote
VARIABLES x, R
Init == (x \in IF Pool = "types" THEN T1 \cup Big ELSE {<<>>}) /\ R = Seen(x)
Next == Pool # "types" /\ Len(x) < MaxLen /\ \E f \in Frags : x' = Append(x, f) /\ R' = Seen(x')

S == R.S
W == [type |-> R.type, cons |-> R.cons, jtype |-> R.jtype, jcons |-> R.jcons]
EmitCase == CSVWrite("%1$s", <<ToJson([pool |-> Pool, chars |-> S, want |-> W, t |-> IF Pool = "types" THEN x ELSE <<>>])>>, IOEnv.OUT)
RECURSIVE HasAny(_)
HasAny(T) == CASE T[1] = "dyn" -> TRUE [] T[1] \in Wraps -> HasAny(T[2]) [] T[1] = "tuple" -> \E i \in 1..Len(T[2]) : HasAny(T[2][i])
               [] T[1] = "object" -> \E n \in DOMAIN T[2] : HasAny(T[2][n]) [] OTHER -> FALSE
Back == Pool = "types" =>
  IF \E k \in 1..Len(S) : S[k] = "(" /\ k + 4 <= Len(S) /\ SubSeq(S, k, k + 4) = <<"(", "f", "o", "r", ")">> THEN TRUE
  ELSE /\ R.cons[1] = "ok" /\ SameType(R.cons[2], x) /\ R.jcons = R.cons
       /\ R.type[1] = (IF HasAny(x) THEN "err" ELSE "ok")
Exact == R.type[1] = "ok" => R.cons = R.type
=============================================================================
