------------------------------- MODULE MCDec -------------------------------
(***************************************************************************)
(* Every specification of a pool against every body of a pool.             *)
(*   TypeLaw: the value always conforms to the implied type.               *)
(*   PartialLaw: a partial decode gives the value of a complete one.       *)
(*   VarsLaw: only reported names matter (an undefined name that decoding  *)
(*   meets is reported).                                                   *)
(***************************************************************************)
EXTENDS Dec, Json, IOUtils, CSV
CONSTANTS Group, MaxItems

VARIABLES spec, body, done
vars == <<spec, body, done>>

------------------------------------------------------------- (* specifications *)
Fn1(k, s) == [x \in {k} |-> s]
Fn2(k, s, l, t) == [x \in {k, l} |-> IF x = k THEN s ELSE t]
At(n, t, r) == <<"attr", n, t, r>>
ListStr == <<"list", String>>
ObjXY == <<"object", Fn2("x", String, "y", Number)>>
Leaves == {At("a", t, r) : t \in {String, Number, Bool, Dyn, ListStr, <<"map", Number>>}, r \in {FALSE, TRUE}}
          \cup {<<"lit", NumI(4)>>, <<"lit", DynVal>>, <<"expr", <<"ref", "s">>>>, <<"expr", <<"tuple", <<<<"ref", "n">>, <<"ref", "bad">>>>>>>>}
Flat ==
  Leaves
  \cup {<<"default", At("a", String, r), d>> : r \in {FALSE, TRUE}, d \in {<<"lit", Str("dd")>>, At("b", String, FALSE), At("b", String, TRUE), <<"expr", <<"ref", "s">>>>}}
  \cup {<<"default", <<"default", At("a", Number, FALSE), At("b", Number, FALSE)>>, <<"lit", NumI(9)>>>>}
  \cup {<<"xform", At("a", t, FALSE), k>> : t \in {String, Number, Dyn}, k \in {"pair", "func", "fail"}}
  \cup {<<"xform", <<"default", At("a", String, TRUE), <<"lit", Str("dd")>>>>, "pair">>, <<"xform", <<"xform", At("a", Number, FALSE), "fail">>, "func">>}
  \cup {<<"object", NoFn>>, <<"tuple", <<>>>>, <<"object", Fn2("p", At("a", Number, TRUE), "q", At("b", Dyn, FALSE))>>,
        <<"tuple", <<At("a", String, FALSE), <<"lit", DynNull>>, At("a", Number, FALSE)>>>>,
        <<"object", Fn1("o", <<"object", Fn2("p", At("a", Bool, FALSE), "q", <<"xform", At("b", Number, FALSE), "pair">>)>>)>>}

Nested == {At("a", String, FALSE), At("a", Number, TRUE), At("a", Dyn, FALSE), <<"label", 0>>,
           <<"object", Fn2("v", At("a", Dyn, FALSE), "l", <<"label", 0>>)>>,
           <<"object", Fn2("v", At("a", String, FALSE), "w", At("b", Number, FALSE))>>,
           <<"tuple", <<<<"label", 1>>, <<"label", 0>>>>>>, <<"object", NoFn>>,
           <<"default", At("a", Number, FALSE), <<"lit", NumI(0)>>>>}
Limits == {<<0, 0>>, <<2, 0>>, <<0, 1>>, <<1, 1>>, <<1, 2>>}
NoDyn(s) == ~HasDyn(Implied(s))
Blocky ==
  {<<"block", "b", n, r>> : n \in Nested, r \in {FALSE, TRUE}}
  \cup {<<k, "b", n, l[1], l[2]>> : k \in {"blist", "btuple", "bset"}, n \in Nested, l \in Limits}
  \cup {<<"bobj", "b", k, n>> : k \in {1, 2}, n \in Nested}
  \cup {<<"bmap", "b", k, n>> : k \in {1, 2}, n \in {m \in Nested : NoDyn(m)}}
  \cup {<<"battrs", "b", t, r>> : t \in {String, Number, Dyn, Bool, <<"list", Dyn>>}, r \in {FALSE, TRUE}}
  \cup {<<"default", <<"block", "b", n, FALSE>>, <<"lit", Null(String)>>>> : n \in Nested}
  \cup {<<"default", <<"block", "b", At("a", String, FALSE), FALSE>>, <<"block", "c", At("a", String, FALSE), FALSE>>>>,
        <<"xform", <<"blist", "b", At("a", Number, FALSE), 1, 0>>, "pair">>, <<"xform", <<"block", "b", At("a", Number, FALSE), FALSE>>, "fail">>,
        <<"tuple", <<<<"block", "b", At("a", Dyn, FALSE), FALSE>>, <<"blist", "b", At("a", Dyn, FALSE), 0, 0>>>>>>,
        <<"object", Fn2("b", <<"blist", "b", <<"object", Fn2("v", At("a", Dyn, FALSE), "c", <<"bset", "c", At("a", String, FALSE), 0, 1>>)>>, 0, 0>>, "c", At("a", Dyn, FALSE))>>,
        <<"object", Fn2("b", <<"blist", "b", <<"bmap", "c", 1, At("a", String, FALSE)>>, 0, 0>>, "c", <<"block", "c", <<"battrs", "b", String, TRUE>>, FALSE>>)>>,
        <<"bmap", "b", 1, <<"bmap", "c", 1, At("a", Number, FALSE)>>>>,
        <<"bmap", "b", 1, <<"bmap", "c", 2, At("a", Number, FALSE)>>>>,
        <<"bobj", "b", 1, <<"btuple", "c", At("a", Dyn, FALSE), 0, 0>>>>}
Specs == IF Group = "flat" THEN Flat ELSE Blocky

------------------------------------------------------------- (* bodies *)
Ref(n) == <<"ref", n>>
AVals == {Str("x"), NumI(5), Str("5"), BoolV(TRUE), DynNull, Ref("u"), Ref("d"), Ref("bad"), Ref("l"), Ref("o"), <<"tuple", <<Ref("n"), Str("y")>>>>, <<"obj", Fn2("x", Str("q"), "y", NumI(2))>>}
JVals0 == {<<"s", "x">>, <<"n", 5>>, <<"s", "${n}">>, <<"s", "${bad}">>, <<"z">>, <<"a", <<<<"s", "${u}">>, <<"n", 1>>>>>>, <<"o", <<<<"x", <<"s", "${s}">>>>>>>>}
FlatBodies ==
  {<<"native", s>> : s \in {<<>>} \cup {<<<<"a", "a", v>>>> : v \in AVals} \cup {<<<<"a", "a", v>>, <<"a", "b", w>>>> : v \in AVals, w \in {NumI(3), Str("w"), Ref("bad")}}
                           \cup {<<<<"a", "b", v>>>> : v \in AVals} \cup {<<<<"a", "c", NumI(1)>>, <<"a", "a", NumI(1)>>>>, <<<<"b", "a", <<>>, <<>>>>>>, <<<<"a", "a", Str("x")>>, <<"b", "b", <<>>, <<>>>>>>}}
  \cup {<<"json", <<"o", s>>>> : s \in {<<>>} \cup {<<<<"a", v>>>> : v \in JVals0} \cup {<<<<"b", v>>, <<"a", <<"n", 5>>>>>> : v \in JVals0} \cup {<<<<"a", v>>, <<"a", <<"n", 5>>>>>> : v \in JVals0}}
  \cup {<<"merge", <<<<"native", <<<<"a", "a", NumI(1)>>>>>>, <<"json", <<"o", <<<<n, <<"n", 2>>>>>>>>>>>>>> : n \in {"a", "b", "c"}}

Inner == {<<>>, <<<<"a", "a", Str("x")>>>>, <<<<"a", "a", NumI(1)>>>>, <<<<"a", "a", BoolV(TRUE)>>, <<"a", "b", NumI(2)>>>>,
          <<<<"a", "a", Ref("u")>>>>, <<<<"a", "a", Ref("bad")>>>>, <<<<"b", "c", <<"k">>, <<<<"a", "a", NumI(1)>>>>>>>>,
          <<<<"b", "c", <<>>, <<<<"a", "a", NumI(1)>>>>>>, <<"b", "c", <<>>, <<<<"a", "a", NumI(1)>>>>>>>>,
          <<<<"a", "a", <<"tuple", <<Ref("n")>>>>>>>>, <<<<"a", "a", Ref("n")>>, <<"a", "z", Ref("s")>>>>}
BItems(sm) == {<<"b", "b", ls, it>> : ls \in IF sm THEN {<<>>, <<"k">>, <<"k", "j">>} ELSE {<<>>, <<"k">>, <<"m">>, <<"k", "j">>, <<"m", "j">>, <<"k", "j", "i">>},
                                     it \in Inner}
BlockBodies ==
  {<<"native", s>> : s \in {<<>>, <<<<"a", "a", NumI(1)>>>>, <<<<"b", "c", <<>>, <<<<"a", "a", Str("cc")>>>>>>>>} \cup {<<x>> : x \in BItems(FALSE)}
       \cup {<<x, y>> : x \in {z \in BItems(TRUE) : Len(z[3]) < MaxItems}, y \in {z \in BItems(FALSE) : Len(z[3]) < MaxItems}}}
  \cup {<<"native", <<x, y, z>>>> : x, y, z \in {<<"b", "b", <<l>>, <<<<"a", "a", v>>>>>> : l \in {"k", "m"}, v \in {NumI(1), NumI(2), Str("x")}}}
  \cup {<<"native", <<x, y, z>>>> : x, y, z \in {<<"b", "b", <<>>, i>> : i \in {<<>>, <<<<"a", "a", NumI(1)>>>>, <<<<"a", "a", NumI(2)>>>>, <<<<"a", "a", Str("1")>>>>}}}
  \cup {<<"json", <<"o", <<<<"b", v>>>>>>>> : v \in {<<"o", <<<<"a", <<"n", 1>>>>>>>>, <<"a", <<<<"o", <<<<"a", <<"s", "${s}">>>>>>>>, <<"o", <<<<"a", <<"s", "${n}">>>>>>>>>>>>, <<"a", <<>>>>, <<"z">>, <<"n", 1>>,
        <<"o", <<<<"k", <<"o", <<<<"a", <<"n", 1>>>>>>>>>>, <<"m", <<"o", <<<<"a", <<"s", "t">>>>>>>>>>>>>>,
        <<"o", <<<<"k", <<"o", <<<<"a", <<"o", <<>>>>>>, <<"j", <<"o", <<>>>>>>>>>>>>>>>>}}
  \cup {<<"merge", <<<<"native", <<<<"b", "b", <<>>, <<<<"a", "a", NumI(1)>>>>>>>>>>, <<"json", <<"o", <<<<"b", <<"o", <<<<"a", <<"s", "${s}">>>>>>>>>>>>>>>>>>>>}
Bodies == IF Group = "flat" THEN FlatBodies ELSE BlockBodies

\* bodies of several blocks whose labels do not fit the specification only fail
Fits(s, b) ==
  b[1] # "native" \/ Len(b[2]) < 2 \/ b[2][1][1] # "b" \/
  LET q == SelectSeq(Schema(s).blocks, LAMBDA x : x.t = "b") IN
  q = <<>> \/ (Len(b[2][1][3]) = q[1].nl /\ (Len(b[2]) = 2 \/ Len(b[2][2][3]) = q[1].nl))
Init == spec \in Specs /\ body \in {b \in Bodies : Fits(spec, b)} /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED <<spec, body>>

H == Open(body)
EmitCase ==
  done =>
    LET d == DecodeBody(H, spec, "content", <<>>, FALSE)
        a == DecodeBody(H, spec, "content", <<>>, TRUE)
        p == DecodeBody(H, spec, "partial", <<>>, FALSE)
    IN CSVWrite("%1$s", <<ToJson([spec |-> spec, body |-> body, v |-> d.v, e |-> d.e, any |-> d.any, pinned |-> a, ty |-> Implied(spec),
                                  schema |-> Schema(spec), pe |-> p.e, left |-> Left(H, spec), vars |-> BodyVars(H, spec)])>>, IOEnv.OUT)

------------------------------------------------------------- (* laws *)
\* defaults given another type than the primary are outside the law
Odd(s) == LET q == Same(s) IN \E i \in 1..Len(q) : q[i][1] = "default" /\ Implied(q[i][2]) # Implied(q[i][3])
TypeLaw == ~done => LET d == DecodeBody(H, spec, "content", <<>>, FALSE) IN d.any \/ Odd(spec) \/ Conforms(d.v, Implied(spec))
PartialLaw == ~done => LET d == DecodeBody(H, spec, "content", <<>>, FALSE) p == DecodeBody(H, spec, "partial", <<>>, FALSE) IN
              d.any \/ (d.v = p.v /\ (p.e => d.e))
=============================================================================
