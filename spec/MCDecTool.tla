----------------------------- MODULE MCDecTool -----------------------------
(* Every small specification file, right or wrong, with every small input.   *)
EXTENDS DecTool, Json, IOUtils, CSV
CONSTANT Part
Fn1(k, s) == [x \in {k} |-> s]
Fn2(k, s, l, t) == [x \in {k, l} |-> IF x = k THEN s ELSE t]
B(t, ls, its) == <<"b", t, ls, its>>
A(n, v) == <<"a", n, v>>
Opt(S) == {<<>>} \cup {<<x>> : x \in S}
Ty(t) == <<"type", t>>
Ref(n) == <<"ref", n>>
LS == <<"list", String>>

\* specifications without a specification inside, as items of type and arguments
AttrArgs == {n \o t \o r : n \in Opt({A("name", Str("a")), A("name", NumI(5)), A("name", Ref("bad"))}),
                           t \in Opt({A("type", x) : x \in {Ty(String), Ty(Number), Ty(LS), Ty(Dyn), Str("string"), DynNull, Ref("bad")}}),
                           r \in Opt({A("required", BoolV(TRUE)), A("required", Str("yes"))})}
OddTypes == {<<A("name", Str("a")), A("type", Ty(t))>> : t \in {<<"set", String>>, <<"map", Number>>, <<"tuple", <<>>>>, <<"tuple", <<String, Number>>>>, <<"object", NoFn>>,
                <<"object", Fn2("x", String, "y", <<"list", Number>>)>>, <<"list", Dyn>>, <<"map", <<"tuple", <<Dyn>>>>>>, <<"list", <<"object", Fn1("x", Bool)>>>>}}
BAttrArgs == {n \o t \o r : n \in Opt({A("block_type", Str("b"))}), t \in Opt({A("element_type", x) : x \in {Ty(String), Ty(Number), Ty(Dyn), Str("x")}}),
                            r \in Opt({A("required", BoolV(TRUE))})}
LitArgs == {<<A("value", v)>> : v \in {NumI(4), Str("w"), DynNull, <<"tuple", <<NumI(1), DynNull>>>>, <<"obj", Fn2("x", Str("q"), "y", DynNull)>>, Ref("s"), Ty(String)}}
           \cup {<<>>, <<A("value", NumI(1)), A("extra", NumI(1))>>}
Leaves == {<<"attr", x>> : x \in AttrArgs \cup OddTypes} \cup {<<"block_attrs", x>> : x \in BAttrArgs} \cup {<<"literal", x>> : x \in LitArgs}
AtA == B("attr", <<>>, <<A("name", Str("a")), A("type", Ty(String))>>)
AtN == B("attr", <<>>, <<A("name", Str("a")), A("type", Ty(Number))>>)
AtX == B("attr", <<>>, <<A("name", Str("a"))>>)
Lit == B("literal", <<>>, <<A("value", Str("dd"))>>)
BadSpec == B("attr", <<>>, <<>>)
Obj(ps) == B("object", <<>>, ps)
Insides == {<<>>, <<AtA>>, <<AtX>>, <<BadSpec>>, <<AtA, AtN>>, <<Obj(<<B("attr", <<"a">>, <<A("type", Ty(Number))>>), B("attr", <<"b">>, <<>>)>>)>>, <<B("blok", <<>>, <<>>)>>, <<B("attr", <<"a">>, <<>>)>>,
            <<B("default", <<>>, <<BadSpec>>)>>, <<B("default", <<>>, <<AtN, B("literal", <<>>, <<A("value", NumI(9))>>)>>)>>}
BlkArgs == {n \o r : n \in Opt({A("block_type", Str("b"))}), r \in Opt({A("required", BoolV(TRUE)), A("required", NumI(3))})}
ManyArgs == {n \o r : n \in Opt({A("block_type", Str("b"))}),
                      r \in {<<>>, <<A("min_items", NumI(1))>>, <<A("max_items", NumI(1))>>, <<A("min_items", Str("2")), A("max_items", NumI(3))>>, <<A("min_items", <<"num", 3, 2>>)>>, <<A("min_items", DynNull)>>, <<A("labels", <<"tuple", <<>>>>)>>}}
MapArgs == {n \o r : n \in Opt({A("block_type", Str("b"))}),
                     r \in {<<>>} \cup {<<A("labels", v)>> : v \in {<<"tuple", <<Str("k")>>>>, <<"tuple", <<Str("k"), Str("l")>>>>, <<"tuple", <<>>>>, <<"tuple", <<DynNull>>>>, DynNull, Str("k")}}}
Wraps == {<<"block", x \o y>> : x \in BlkArgs, y \in Insides} \cup {<<t, x \o y>> : t \in {"block_list", "block_set"}, x \in ManyArgs, y \in Insides}
         \cup {<<"block_map", x \o y>> : x \in MapArgs, y \in Insides}
Groups == {<<"default", x>> : x \in {<<>>, <<AtA>>, <<AtA, Lit>>, <<AtN, AtA, Lit>>, <<BadSpec>>, <<BadSpec, Lit>>, <<A("x", NumI(1)), AtA>>, <<AtA, B("literal", <<"l">>, <<A("value", NumI(1))>>)>>}}
          \cup {<<"transform", r \o x>> : r \in Opt({A("result", <<"xf", k>>) : k \in {"pair", "same", "undef"}}), x \in {<<>>, <<AtA>>, <<AtX>>, <<AtA, Lit>>, <<BadSpec>>, <<B("default", <<>>, <<AtN, Lit>>)>>}}
          \cup {<<"array", x>> : x \in {<<>>, <<AtA, AtN, AtX>>, <<AtA, BadSpec>>, <<B("attr", <<"a">>, <<>>)>>, <<Lit, B("array", <<>>, <<AtX>>)>>}}
          \cup {<<"object", x>> : x \in {<<>>, <<B("attr", <<"a">>, <<>>)>>, <<AtA>>, <<B("attr", <<"p">>, <<A("name", Str("a"))>>), B("literal", <<"q">>, <<A("value", DynNull)>>), B("block_list", <<"b">>, <<AtX>>)>>,
                                        <<B("attr", <<"">>, <<>>)>>, <<B("attr", <<"p", "q">>, <<>>)>>, <<B("default", <<"a">>, <<AtA>>), B("transform", <<"t">>, <<A("result", <<"xf", "pair">>), AtX>>)>>}}
Everything == CASE Part = "leaf" -> Leaves [] Part = "wrap" -> Wraps [] OTHER -> Groups
VarsB == B("variables", <<>>, <<A("s", Str("hi"))>>)
Roots == {<<<<B(x[1], <<>>, x[2])>>>> : x \in Everything}
         \cup {<<<<Obj(<<B(x[1], <<l>>, x[2])>>)>>>> : x \in {y \in Everything : Part # "wrap" \/ Len(y[2]) < 3}, l \in IF Part = "wrap" THEN {"b"} ELSE {"a", "b"}}
         \cup (IF Part = "group" THEN {<<x>> : x \in {<<>>, <<VarsB>>, <<AtA, AtN>>, <<VarsB, AtA>>, <<A("x", NumI(1)), AtA>>, <<B("variables", <<>>, <<A("s", Ref("n"))>>), AtA>>,
                                                        <<VarsB, B("variables", <<>>, <<A("s", NumI(2)), A("n", NumI(7))>>), AtX>>, <<B("variables", <<"l">>, <<>>), AtA>>, <<B("variables", <<>>, <<VarsB>>), AtA>>}} ELSE {})

NatF(s) == <<"native", s>>
In1(x) == <<A("a", x)>>
FlatFiles == {<<NatF(<<>>)>>, <<NatF(In1(Str("x")))>>, <<NatF(In1(NumI(5)))>>, <<NatF(In1(Ref("s")))>>, <<NatF(In1(<<"tuple", <<Str("p"), DynNull>>>>))>>, <<NatF(In1(<<"obj", Fn2("x", Str("q"), "y", DynNull)>>))>>,
              <<NatF(In1(BoolV(TRUE))), <<"json", <<"o", <<<<"b", <<"s", "${n}">>>>>>>>>>>>}
Inner == {<<>>, In1(Str("x")), In1(NumI(1)), In1(Ref("bad"))}
BlkFiles == {<<NatF(<<>>)>>} \cup {<<NatF(<<B("b", <<>>, x)>>)>> : x \in Inner} \cup {<<NatF(<<B("b", <<>>, x), B("b", <<>>, y)>>)>> : x \in {<<>>, In1(NumI(1))}, y \in {In1(Str("x")), In1(NumI(1))}}
            \cup {<<NatF(<<B("b", <<"k">>, x), B("b", <<l>>, In1(Str("2")))>>)>> : x \in {<<>>, In1(NumI(1))}, l \in {"k", "m"}} \cup {<<NatF(<<B("b", <<"k", "j">>, In1(NumI(1)))>>)>>}
            \cup {<<<<"json", <<"o", <<<<"b", <<"a", <<<<"o", <<<<"a", <<"n", 1>>>>>>>>, <<"o", <<<<"a", <<"s", "x">>>>>>>>>>>>>>>>>>>>>>}
Files == CASE Part = "leaf" -> FlatFiles \cup {<<NatF(<<B("b", <<>>, In1(NumI(1)))>>)>>, <<NatF(<<B("b", <<>>, <<A("a", Str("x")), A("c", NumI(1))>>)>>)>>}
           [] Part = "wrap" -> BlkFiles
           [] OTHER -> FlatFiles \cup {<<NatF(<<A("a", Ref("s")), B("b", <<>>, In1(NumI(1)))>>)>>, <<NatF(<<>>), <<"missing">>>>, <<<<"broken">>>>}
Layers == IF Part = "group" THEN {<<>>, <<<<"ok", <<<<"s", NumI(3)>>>>>>>>, <<<<"ok", <<<<"s", NumI(3)>>>>>>, <<"ok", <<<<"s", Str("l")>>, <<"n", NumI(2)>>>>>>>>, <<<<"bad">>>>} ELSE {<<<<"ok", <<<<"s", Str("hi")>>, <<"n", NumI(7)>>>>>>>>}
Modes == {<<FALSE, FALSE>>, <<TRUE, FALSE>>, <<FALSE, TRUE>>}

\* a wrong specification file is tried with one input
Runs(sp) ==
  LET x == SpecFile(sp) one(S) == {CHOOSE y \in S : TRUE} bad == x.e \/ x.any IN
  {[spec |-> <<"ok", sp>>, layers |-> l, files |-> f, ty |-> m[1], refs |-> m[2]] : l \in IF bad THEN one(Layers) ELSE Layers, f \in IF bad THEN one(Files) ELSE Files,
                                                                                 m \in IF bad THEN {<<FALSE, FALSE>>} ELSE Modes}
VARIABLES sp, run
vars == <<sp, run>>
Init == sp \in {x[1] : x \in Roots} /\ run = <<>>
Next == run = <<>> /\ \E r \in Runs(sp) : run' = <<r>> /\ UNCHANGED sp
\* the printed document leaves no null property, and a right specification file
\* describes a specification whose schema is well formed
RECURSIVE NoNull(_)
NoNull(d) == CASE d[1] = "o" -> \A k \in DOMAIN d[2] : d[2][k] # <<"z">> /\ NoNull(d[2][k])
               [] d[1] \in {"a", "u"} -> \A i \in 1..Len(d[2]) : NoNull(d[2][i])
               [] OTHER -> TRUE
Printed == run # <<>> => NoNull(Run(run[1]).out)
Short(r) == r.layers # <<>> => r.files = <<NatF(In1(Ref("s")))>> \/ Part # "group"
EmitCase == run # <<>> /\ Short(run[1]) => CSVWrite("%1$s", <<ToJson([run |-> run[1], want |-> Run(run[1])])>>, IOEnv.OUT)
=============================================================================
