------------------------------- MODULE MCExpr -------------------------------
(***************************************************************************)
(* Bounded-exhaustive exploration of expressions. A state is an expression;*)
(* a transition wraps it in one more construct with fixed siblings. Every  *)
(* reachable expression is evaluated in a scope with known values and in   *)
(* one where some of them are unknown; both expectations are emitted for   *)
(* replay on the real evaluator.                                           *)
(*   Sound: whatever is known in a result computed with unknown inputs     *)
(*   stays the same once the inputs are known.                             *)
(***************************************************************************)
EXTENDS Expr, Json, IOUtils, CSV
CONSTANTS Depth, Siblings, Unknowns, Full

VARIABLES e, d, nul   \* nul: the expression mentions a null or hides an error
vars == <<e, d, nul>>

V(n) == <<"var", n>>
L(v) == <<"lit", v>>

\* outer frame, shadowed by the inner one for "n"
Outer == ("n" :> Str("shadowed")) @@ ("z" :> Null(Number)) @@ ("q" :> Str("2"))
Known == ("n" :> NumI(1)) @@ ("s" :> Str("a")) @@ ("b" :> BoolV(TRUE))
      @@ ("l" :> <<"list", String, <<Str("x"), Str("2")>>>>)
      @@ ("m" :> <<"map", Number, ("a" :> NumI(4)) @@ ("b" :> NumI(5))>>)
      @@ ("o" :> <<"obj", ("a" :> Str("a")) @@ ("b" :> <<"tuple", <<NumI(7), BoolV(FALSE)>>>>)>>)
      @@ ("t" :> <<"tuple", <<NumI(1), Str("b")>>>>)
      @@ ("y" :> <<"set", Number, <<NumI(1), NumI(2)>>>>)
CtxK == <<Known, Outer>>

\* Unknown inputs and values they may turn out to have.
UnkOf(v) == Unk(TypeOf(v))
Choices == ("n" :> {NumI(0), NumI(1), NumI(5)}) @@ ("b" :> {BoolV(TRUE), BoolV(FALSE)})
        @@ ("s" :> {Str("a"), Str("1"), Str("")})
        @@ ("l" :> {<<"list", String, <<>>>>, <<"list", String, <<Str("a")>>>>, <<"list", String, <<Str("x"), Str("2")>>>>})
        @@ ("m" :> {<<"map", Number, NoFn>>, <<"map", Number, ("a" :> NumI(0))>>})
        @@ ("o" :> {<<"obj", ("a" :> Str("1")) @@ ("b" :> <<"tuple", <<NumI(0), BoolV(TRUE)>>>>)>>})
        @@ ("y" :> {<<"set", Number, <<>>>>, <<"set", Number, <<NumI(2)>>>>})
        @@ ("t" :> {<<"tuple", <<NumI(0), Str("0")>>>>, <<"tuple", <<NumI(1), Str("z")>>>>})
CtxU(N) == <<[k \in DOMAIN Known |-> IF k \in N THEN UnkOf(Known[k]) ELSE Known[k]], Outer>>
\* Partially unknown structures
Part == ("t" :> <<"tuple", <<NumI(1), Unk(String)>>>>) @@ ("l" :> <<"list", String, <<Str("x"), Unk(String)>>>>)
        @@ ("m" :> <<"map", Number, ("a" :> Unk(Number)) @@ ("b" :> NumI(5))>>)
        @@ ("o" :> <<"obj", ("a" :> Unk(String)) @@ ("b" :> <<"tuple", <<Unk(Number), BoolV(FALSE)>>>>)>>)
CtxP == <<Part @@ Known, Outer>>
ConcP == {<<("t" :> <<"tuple", <<NumI(1), x>>>>) @@ ("l" :> <<"list", String, <<Str("x"), x>>>>)
            @@ ("m" :> <<"map", Number, ("a" :> y) @@ ("b" :> NumI(5))>>)
            @@ ("o" :> <<"obj", ("a" :> x) @@ ("b" :> <<"tuple", <<y, BoolV(FALSE)>>>>)>>) @@ Known, Outer>> :
          x \in {Str("a"), Str("0")}, y \in {NumI(0), NumI(1)}}

Leaves == {V("n"), V("s"), V("b"), V("l"), V("m"), V("o"), V("t"), V("y"), V("z"), V("q"), V("nope"),
           L(NumI(0)), L(Str("a")), L(BoolV(FALSE)), L(DynNull), L(<<"num", 5, 2>>)}
SmallSib == {V("n"), V("s"), L(DynNull)}
LargeSib == SmallSib \cup {V("b"), V("t"), V("l"), V("o"), L(NumI(0))}
Sib == IF Siblings = "small" THEN SmallSib ELSE LargeSib
BinOps == IF Siblings = "small" THEN {"+", "&&", "<", "=="} ELSE {"+", "-", "*", "/", "%", "&&", "||", "<", "<=", ">", ">=", "==", "!="}

Wrap(x, Sb) ==
  {<<"bin", op, x, s>> : op \in BinOps, s \in Sb} \cup {<<"bin", op, s, x>> : op \in BinOps, s \in Sb}
  \cup {<<"un", op, x>> : op \in {"-", "!"}}
  \cup {<<"cond", x, s, L(NumI(1))>> : s \in Sb} \cup {<<"cond", V("b"), x, s>> : s \in Sb} \cup {<<"cond", <<"un", "!", V("b")>>, s, x>> : s \in Sb}
  \cup {<<"idx", x, s>> : s \in Sb} \cup {<<"idx", V(s), x>> : s \in {"l", "m", "o", "t"}}
  \cup {<<"attr", x, "a">>, <<"tuple", <<x, V("s")>>>>, <<"paren", x>>}
  \cup {<<"obj", <<<<"id", "a", x>>, <<"e", V("s"), V("n")>>>>>>, <<"obj", <<<<"e", x, V("n")>>, <<"id", "b", V("s")>>>>>>}
  \cup {<<"splat", x, "full", <<"item">>>>, <<"splat", x, "full", <<"attr", <<"item">>, "a">>>>,
        <<"splat", x, "full", <<"idx", <<"item">>, L(NumI(0))>>>>, <<"splat", x, "attr", <<"attr", <<"item">>, "b">>>>}
  \cup {<<"call", "id", <<x>>, FALSE>>, <<"call", "sum", <<x>>, TRUE>>, <<"call", "sum", <<V("n"), x>>, FALSE>>,
        <<"call", "pair", <<V("s"), x>>, FALSE>>, <<"call", "pair", <<x>>, TRUE>>, <<"call", "join", <<x>>, FALSE>>,
        <<"call", "dup", <<x, x>>, FALSE>>, <<"call", "zzz", <<x>>, FALSE>>, <<"call", "chk", <<V("n"), x>>, FALSE>>}
  \cup {<<"fort", "", "v", x, V("v"), FALSE, <<>>>>, <<"fort", "k", "v", x, V("k"), FALSE, <<>>>>,
        <<"fort", "", "v", V("l"), x, FALSE, <<>>>>, <<"fort", "n", "s", V("t"), x, FALSE, <<>>>>,
        <<"fort", "", "v", V("t"), V("v"), TRUE, x>>}
  \cup {<<"foro", "k", "v", x, V("k"), V("v"), FALSE, <<>>, FALSE>>, <<"foro", "", "v", V("t"), x, V("v"), FALSE, <<>>, FALSE>>,
        <<"foro", "k", "v", V("l"), V("s"), x, FALSE, <<>>, TRUE>>, <<"foro", "k", "v", V("m"), V("k"), V("v"), TRUE, x, FALSE>>}
  \cup {<<"tmpl", <<<<"i", x>>>>>>, <<"tmpl", <<<<"s", "-">>, <<"i", x>>, <<"i", V("n")>>>>>>,
        <<"tmpl", <<<<"tif", x, <<<<"s", "T">>>>, <<<<"i", V("s")>>>>>>>>>>,
        <<"tmpl", <<<<"tif", V("b"), <<<<"i", x>>>>, <<>>>>>>>>,
        <<"tmpl", <<<<"tfor", "k", "v", x, <<<<"i", V("v")>>, <<"s", ";">>>>>>>>>>}

Scopes == IF Unknowns /\ ~Full THEN {CtxU({"b", "n", "l"}), CtxP}
          ELSE IF Unknowns THEN {CtxU({"n"}), CtxU({"s"}), CtxU({"b"}), CtxU({"l", "m"}), CtxU({"o", "t", "y"}), CtxU(DOMAIN Known), CtxP}
          ELSE {CtxK}

Concretisations(c) ==
  IF c = CtxP THEN ConcP
  ELSE LET us == {k \in DOMAIN Known : c[1][k][1] = "unk"}
           \* one variable at a time off the default, and all extremes
       IN {<<[k \in DOMAIN Known |-> IF k = k1 THEN v ELSE Known[k]], Outer>> : k1 \in us, v \in UNION {Choices[k2] : k2 \in us}}

Good(w) == \A k \in DOMAIN Known : TypeOf(w[1][k]) = TypeOf(Known[k])

NullLeaves == {V("z"), L(DynNull)}
Init == e \in Leaves /\ d = 0 /\ nul = (e \in NullLeaves)
NoNull == Sib \ NullLeaves
\* A conditional drops the errors of the branch it does not take, so an operand
\* that fails only for some inputs changes the result type silently.
Safe(x) == \A c \in Scopes : \A w \in Concretisations(c) : Good(w) => Eval(x, w)[2] = "ok"
Branches(x, Sb) == {<<"cond", V("b"), x, s>> : s \in Sb} \cup {<<"cond", <<"un", "!", V("b")>>, s, x>> : s \in Sb}
                   \cup {<<"tmpl", <<<<"tif", V("b"), <<<<"i", x>>>>, <<>>>>>>>>}
Next == /\ d < Depth /\ d' = d + 1
        /\ LET Unsafe == Unknowns /\ ~nul /\ ~Safe(e)
               Br == Branches(e, NoNull)
           IN \/ e' \in Wrap(e, NoNull) /\ nul' = (nul \/ (e' \in Br /\ Unsafe))
              \/ e' \in Wrap(e, Sib) \ Wrap(e, NoNull) /\ nul' = TRUE

Want(r) == IF r[2] = "err" THEN <<"err">> ELSE <<"ok", r[1]>>
EmitCase == \A c \in Scopes :
  LET r == Eval(e, c) IN
  r[2] = "any" \/ CSVWrite("%1$s", <<ToJson([ast |-> e, ctx |-> c, want |-> Want(r)])>>, IOEnv.OUT)

\* (Only for expressions that do not mention null: an unknown value is taken to
\* be non-null by splats and comparisons.)
Sound ==
  (Unknowns /\ ~nul) => \A c \in Scopes :
    LET r == Eval(e, c) IN
    (r[2] = "ok" => \A w \in Concretisations(c) :
       Good(w) => LET x == Eval(e, w) IN (x[2] = "ok" /\ WhollyKnown(x[1])) => Refines(r[1], x[1]))
=============================================================================
