----------------------------- MODULE MCUserFunc -----------------------------
(***************************************************************************)
(* Group "calls": every function of a pool called with every list of       *)
(* arguments up to three, in three kinds of context; "defs": every pair of *)
(* definitions of a pool of valid and invalid ones, with calls to both.    *)
(*   Bound: a call of a constant function gives the constant exactly when   *)
(*   the number of arguments fits.                                          *)
(***************************************************************************)
EXTENDS UserFunc, Json, IOUtils, CSV
CONSTANT Group

V(n) == <<"var", n>>
L(v) == <<"lit", v>>
D(name, labels, params, var, res, extra) == [name |-> name, labels |-> labels, params |-> params, var |-> var, res |-> res, extra |-> extra]
None == <<"none">>
Ps(ns) == <<"list", ns>>
Ast(e) == <<"ast", e>>
Bodies == {L(Str("c")), V("a"), V("n"), V("rest"), <<"bin", "+", V("a"), V("b")>>, <<"attr", V("a"), "x">>, <<"tuple", <<V("b"), V("a"), V("n")>>>>,
           <<"idx", V("rest"), L(NumI(0))>>, <<"call", "id", <<V("a")>>, FALSE>>, <<"call", "g", <<V("a")>>, FALSE>>,
           <<"fort", "", "v", V("rest"), <<"tuple", <<V("v"), V("a")>>>>, FALSE, L(BoolV(TRUE))>>,
           <<"cond", <<"bin", "==", V("a"), V("s")>>, V("b"), V("n")>>, <<"splat", V("rest"), "full", <<"attr", <<"item">>, "x">>>>}
G == D("g", 1, Ps(<<"s">>), None, Ast(<<"tuple", <<V("s"), V("m")>>>>), FALSE)
ArgPool == {Str("p"), NumI(3), <<"obj", [x |-> NumI(1)]>>, <<"tuple", <<NumI(1), Str("q")>>>>}
ArgLists == {<<>>} \cup {<<x>> : x \in ArgPool} \cup {<<x, y>> : x, y \in ArgPool} \cup {<<x, Str("p"), y>> : x, y \in ArgPool}
Bases == {"nil", "vars", "rec"}
BaseVars == [n |-> NumI(7), s |-> Str("p"), m |-> Str("base")]
Caller == [n |-> NumI(-1), m |-> Str("caller"), b |-> Str("caller b")]
Params == {<<>>, <<"a">>, <<"a", "b">>, <<"n", "a">>}
Vars == {None, <<"name", "rest">>, <<"name", "n">>}

DefPool == {G, D("f", 1, Ps(<<"a">>), None, Ast(V("a")), FALSE), D("f", 1, Ps(<<"a", "!">>), None, Ast(V("a")), FALSE),
            D("f", 1, <<"bad">>, None, Ast(V("a")), FALSE), D("f", 1, None, None, Ast(V("a")), FALSE), D("f", 1, Ps(<<>>), <<"bad">>, Ast(V("a")), FALSE),
            D("f", 1, Ps(<<"a">>), <<"name", "rest">>, None, FALSE), D("f", 1, Ps(<<"a">>), <<"name", "rest">>, Ast(V("rest")), TRUE),
            D("f", 0, Ps(<<"a">>), None, Ast(V("a")), FALSE), D("f", 2, Ps(<<"a">>), None, Ast(V("a")), FALSE),
            D("h", 1, Ps(<<>>), None, Ast(<<"call", "f", <<L(NumI(1))>>, FALSE>>), FALSE), D("h", 1, Ps(<<"x">>), <<"name", "x">>, Ast(V("x")), FALSE)}

VARIABLES ds, base, call
vars == <<ds, base, call>>
Init == IF Group = "calls"
        THEN \E p \in Params, v \in Vars, b \in Bodies : ds = <<D("f", 1, Ps(p), v, Ast(b), FALSE), G>> /\ base \in Bases /\ call = <<>>
        ELSE \E x, y \in DefPool : ds = <<x, y>> /\ base \in {"nil", "rec"} /\ call = <<>>
Args(as) == [i \in 1..Len(as) |-> <<"tuple", <<V("n")>>>>]
Next == /\ call = <<>> /\ UNCHANGED <<ds, base>>
        /\ IF Group = "calls"
           THEN \E as \in ArgLists : \E x \in BOOLEAN : call' = <<"f", as, x>>
           ELSE \E f \in {"f", "g", "h", "zzz"} : call' = <<f, <<Str("p")>>, FALSE>>
\* the arguments are given as variables of the calling scope; the last form
\* passes them all as one expanded tuple
CallEx == IF call[3] THEN <<"call", call[1], <<V("args")>>, TRUE>>
          ELSE <<"call", call[1], [i \in 1..Len(call[2]) |-> V(<<"a1", "a2", "a3">>[i])], FALSE>>
CallScope == Caller @@ [args |-> <<"tuple", call[2]>>, a1 |-> IF Len(call[2]) > 0 THEN call[2][1] ELSE Str(""),
                        a2 |-> IF Len(call[2]) > 1 THEN call[2][2] ELSE Str(""), a3 |-> IF Len(call[2]) > 2 THEN call[2][3] ELSE Str("")]
Res == CallIn(ds, base, BaseVars, CallScope, CallEx)
EmitCase == call = <<>> \/ Open(ds) \/ Res[2] = "any"
  \/ CSVWrite("%1$s", <<ToJson([ds |-> ds, base |-> base, vars |-> BaseVars, caller |-> CallScope, call |-> CallEx,
                                want |-> [err |-> Fails(ds), names |-> Names(ds), headers |-> Headers(ds), out |-> Out(Res)]])>>, IOEnv.OUT)
Bound == (call # <<>> /\ Group = "calls" /\ ds[1].res[2] = L(Str("c"))) =>
  LET n == Len(call[2]) np == Len(ds[1].params[2]) IN
  (Res = Ok(Str("c"))) <=> (n >= np /\ (ds[1].var # None \/ n = np))
=============================================================================
