------------------------------ MODULE MCStruct ------------------------------
(***************************************************************************)
(* Every structure type of a pool against every body of a pool, and every  *)
(* structure value of a pool written and read back.                        *)
(*   RoundTrip: a value that encoding can express in full reads back equal.*)
(*   Complete: nothing is lost - what a complete decode accepts, the       *)
(*   structure with a remaining body accepts too, with nothing remaining.  *)
(***************************************************************************)
EXTENDS StructOps, Json, IOUtils, CSV
CONSTANT Group   \* "args", "blocks", "encode"

VARIABLES shape, x, done
vars == <<shape, x, done>>

Fn1(k, s) == [y \in {k} |-> s]
Fn2(k, s, l, t) == [y \in {k, l} |-> IF y = k THEN s ELSE t]
Ref(n) == <<"ref", n>>
Prims == {<<"string">>, <<"int">>, <<"int8">>, <<"uint8">>, <<"float">>, <<"bool">>, <<"cty">>}
ArgTypes == Prims \cup {<<"expr">>, <<"attr">>} \cup {<<"ptr", p>> : p \in Prims \ {<<"cty">>}} \cup {<<k, p>> : k \in {"slice", "map"}, p \in Prims \ {<<"cty">>}}
            \cup {<<"slice", <<"ptr", <<"string">>>>>>, <<"map", <<"ptr", <<"int">>>>>>, <<"slice", <<"slice", <<"int">>>>>>, <<"map", <<"slice", <<"bool">>>>>>,
                  <<"obj", <<<<"k", <<"string">>>>>>>>, <<"obj", <<<<"k", <<"ptr", <<"int">>>>>>, <<"m", <<"slice", <<"string">>>>>>>>>>, <<"ptr", <<"obj", <<<<"k", <<"bool">>>>>>>>>>}
St(fs) == <<"struct", fs>>
ArgShapes ==
  {St(<<<<"attr", "a", o, t>>>>) : o \in BOOLEAN, t \in ArgTypes}
  \cup {St(<<<<"attr", "a", FALSE, t>>, <<"remain", r>>>>) : t \in {<<"string">>, <<"expr">>, <<"ptr", <<"int">>>>},
        r \in {<<"body">>, <<"attrs">>, <<"gomap", <<"string">>>>, <<"gomap", <<"expr">>>>, <<"gomap", <<"attr">>>>, <<"gomap", <<"ptr", <<"int">>>>>>,
               St(<<<<"attr", "b", TRUE, <<"int">>>>>>), St(<<<<"attr", "b", FALSE, <<"string">>>>, <<"remain", <<"attrs">>>>>>), St(<<>>)}}
  \cup {<<"gomap", t>> : t \in ArgTypes}
  \cup {St(<<>>), St(<<<<"plain">>>>), St(<<<<"remain", <<"body">>>>>>)}
Vals == {Str("x"), Str("5"), Str(""), Str("true"), NumI(5), NumI(-1), NumI(200), NumI(256), <<"num", 5, 2>>, BoolV(TRUE), DynNull, Ref("u"), Ref("d"), Ref("bad"), Ref("l"), Ref("o"), Ref("s"), Ref("n"),
         <<"tuple", <<>>>>, <<"tuple", <<Str("x"), NumI(1)>>>>, <<"tuple", <<DynNull, NumI(1)>>>>, <<"tuple", <<NumI(1), Ref("u")>>>>, <<"tuple", <<<<"tuple", <<NumI(1)>>>>, <<"tuple", <<>>>>>>>>,
         <<"obj", NoFn>>, <<"obj", Fn1("k", Str("x"))>>, <<"obj", Fn1("k", NumI(7))>>, <<"obj", Fn2("k", NumI(7), "m", <<"tuple", <<Str("y")>>>>)>>, <<"obj", Fn2("k", DynNull, "m", DynNull)>>,
         <<"obj", Fn1("k", <<"tuple", <<BoolV(TRUE), Str("false")>>>>)>>, <<"obj", Fn2("k", BoolV(TRUE), "z", Str("x"))>>}
JVals == {<<"s", "x">>, <<"n", 5>>, <<"s", "${n}">>, <<"s", "${bad}">>, <<"z">>, <<"a", <<<<"s", "${s}">>, <<"n", 1>>>>>>, <<"o", <<<<"k", <<"s", "${n}">>>>>>>>, <<"t", TRUE>>}
ArgBodies ==
  {<<"native", s>> : s \in {<<>>} \cup {<<<<"a", "a", v>>>> : v \in Vals} \cup {<<<<"a", "b", v>>, <<"a", "a", w>>>> : v \in {NumI(5), Ref("bad"), DynNull}, w \in {Str("5"), Ref("bad")}}
       \cup {<<<<"a", "b", NumI(3)>>>>, <<<<"b", "blk", <<>>, <<>>>>>>, <<<<"b", "blk", <<>>, <<>>>>, <<"a", "a", Str("5")>>>>, <<<<"b", "a", <<>>, <<>>>>>>}}
  \cup {<<"json", <<"o", s>>>> : s \in {<<>>} \cup {<<<<"a", v>>>> : v \in JVals} \cup {<<<<"b", v>>, <<"a", <<"n", 5>>>>>> : v \in JVals} \cup {<<<<"//", v>>, <<"a", <<"n", 5>>>>>> : v \in JVals}}
  \cup {<<"merge", <<<<"native", <<<<"a", "a", NumI(1)>>>>>>, <<"json", <<"o", <<<<n, <<"n", 2>>>>>>>>>>>>>> : n \in {"a", "b", "c"}}

Subs == {St(<<>>), St(<<<<"attr", "a", FALSE, <<"string">>>>>>), St(<<<<"label", "name">>>>), St(<<<<"attr", "a", TRUE, <<"int">>>>, <<"label", "name">>>>),
         St(<<<<"label", "kind">>, <<"attr", "a", FALSE, <<"ptr", <<"string">>>>>>, <<"label", "name">>>>), St(<<<<"remain", <<"body">>>>, <<"label", "name">>>>), St(<<<<"remain", <<"gomap", <<"string">>>>>>>>),
         St(<<<<"block", "sub", "slice", St(<<<<"label", "k">>, <<"attr", "a", TRUE, <<"cty">>>>>>)>>>>), St(<<<<"block", "sub", "ptr", St(<<<<"attr", "a", FALSE, <<"expr">>>>>>)>>>>), St(<<<<"plain">>, <<"label", "x">>>>)}
BlockShapes ==
  {St(<<<<"block", "blk", m, s>>>>) : m \in {"one", "ptr", "slice", "sliceptr"}, s \in Subs}
  \cup {St(<<<<"block", "blk", m, s>>>>) : m \in {"one", "slice"}, s \in {<<"body">>, <<"attrs">>, <<"block">>}}
  \cup {St(<<<<"attr", "a", FALSE, <<"string">>>>, <<"block", "blk", m, s>>, <<"remain", r>>>>) : m \in {"ptr", "slice"}, s \in {St(<<<<"attr", "a", FALSE, <<"string">>>>>>), St(<<<<"label", "name">>>>)},
        r \in {<<"body">>, <<"attrs">>, St(<<<<"block", "sub", "one", St(<<>>)>>>>)}}
  \cup {St(<<<<"block", "blk", "slice", St(<<<<"label", "n">>>>)>>, <<"block", "sub", "one", St(<<<<"remain", <<"attrs">>>>>>)>>>>)}
Inner == {<<>>, <<<<"a", "a", Str("x")>>>>, <<<<"a", "a", DynNull>>>>, <<<<"a", "a", Ref("u")>>, <<"a", "b", NumI(2)>>>>, <<<<"b", "sub", <<"k">>, <<<<"a", "a", NumI(1)>>>>>>>>,
          <<<<"b", "sub", <<>>, <<<<"a", "a", Ref("n")>>>>>>>>, <<<<"b", "sub", <<>>, <<>>>>, <<"b", "sub", <<>>, <<>>>>>>, <<<<"b", "sub", <<"k">>, <<>>>>, <<"b", "sub", <<"j">>, <<>>>>>>}
BItems == {<<"b", "blk", ls, it>> : ls \in {<<>>, <<"k">>, <<"k", "a b">>}, it \in Inner}
BlockBodies ==
  {<<"native", s>> : s \in {<<>>, <<<<"a", "blk", NumI(1)>>>>, <<<<"a", "a", NumI(1)>>, <<"b", "sub", <<>>, <<>>>>>>, <<<<"b", "sub", <<>>, <<<<"a", "c", NumI(3)>>>>>>, <<"b", "blk", <<"k">>, <<>>>>, <<"a", "a", Str("t")>>>>}
       \cup {<<y>> : y \in BItems} \cup {<<y, z>> : y \in {w \in BItems : Len(w[4]) < 2}, z \in BItems} \cup {<<y, <<"a", "a", Str("z")>>>> : y \in BItems}}
  \cup {<<"json", <<"o", s>>>> : s \in {<<<<"blk", v>>>> : v \in {<<"o", <<>>>>, <<"z">>, <<"n", 1>>, <<"a", <<>>>>, <<"o", <<<<"a", <<"s", "${s}">>>>>>>>, <<"a", <<<<"o", <<<<"a", <<"n", 1>>>>>>>>, <<"o", <<>>>>>>>>,
        <<"o", <<<<"k", <<"o", <<<<"a", <<"n", 1>>>>>>>>>>, <<"m", <<"o", <<>>>>>>>>>>, <<"o", <<<<"k", <<"o", <<<<"j", <<"o", <<>>>>>>>>>>>>>>>>, <<"o", <<<<"sub", <<"o", <<<<"a", <<"n", 1>>>>>>>>>>>>>>}}}
  \cup {<<"merge", <<<<"native", <<<<"b", "blk", <<>>, <<<<"a", "a", NumI(1)>>>>>>>>>>, <<"json", <<"o", <<<<"blk", <<"o", <<<<"a", <<"s", "${s}">>>>>>>>>>>>>>>>>>>>}

------------------------------------------------------------- (* values *)
RECURSIVE Pool(_), PoolRec(_)
Pool(T) ==
  CASE T[1] = "string" -> {Str(""), Str("x"), Str("${y")}
    [] T[1] = "int" -> {NumI(0), NumI(-40)}
    [] T[1] = "int8" -> {NumI(-128), NumI(127)}
    [] T[1] = "uint8" -> {NumI(0), NumI(255)}
    [] T[1] = "float" -> {<<"num", 1, 2>>, <<"num", -3, 4>>}
    [] T[1] = "bool" -> {BoolV(TRUE), BoolV(FALSE)}
    [] T[1] = "cty" -> {<<"cty", v>> : v \in {Str("c"), DynNull, <<"tuple", <<NumI(1), Str("x")>>>>, <<"obj", Fn1("k", BoolV(TRUE))>>, <<"list", Number, <<NumI(1)>>>>, Null(String)}}
    [] T[1] \in {"expr", "attr"} -> {Nil, <<"raw">>}
    [] T[1] = "ptr" -> {Nil} \cup {<<"ptr", v>> : v \in Pool(T[2])}
    [] T[1] = "slice" -> {Nil, <<"slice", <<>>>>} \cup {<<"slice", <<v>>>> : v \in Pool(T[2])} \cup {<<"slice", <<v, w>>>> : v, w \in Pool(T[2])}
    [] T[1] = "map" -> {Nil, <<"map", <<>>>>} \cup {<<"map", <<<<"k", v>>>>>> : v \in Pool(T[2])} \cup {<<"map", <<<<"a b", v>>, <<"k", w>>>>>> : v, w \in Pool(T[2])}
    [] T[1] = "obj" -> IF Len(T[2]) = 1 THEN {<<"obj", <<v>>>> : v \in Pool(T[2][1][2])} ELSE {<<"obj", <<v, w>>>> : v \in Pool(T[2][1][2]), w \in Pool(T[2][2][2])}
PoolShape(sh) == IF sh[1] = "struct" THEN PoolRec(sh[2]) ELSE {Nil, <<"raw">>}
PoolField(f) ==
  CASE f[1] = "attr" -> Pool(f[4])
    [] f[1] = "label" -> {Str("l"), Str("a b"), Str("")}
    [] f[1] = "plain" -> {Str("p")}
    [] f[1] = "remain" -> PoolShape(f[2])
    [] f[1] = "block" -> LET b == PoolShape(f[4])
                             p == IF f[3] \in {"ptr", "sliceptr"} THEN {Nil} \cup {<<"ptr", v>> : v \in b} ELSE b
                         IN IF f[3] \in {"one", "ptr"} THEN p ELSE {Nil, <<"slice", <<>>>>} \cup {<<"slice", <<v>>>> : v \in p} \cup {<<"slice", <<v, w>>>> : v, w \in IF Cardinality(p) > 12 THEN {} ELSE p}
PoolRec(S) ==
  IF S = <<>> THEN {<<"rec", <<>>>>}
  ELSE {<<"rec", Append(h[2], v)>> : h \in PoolRec(SubSeq(S, 1, Len(S) - 1)), v \in PoolField(S[Len(S)])}
EncodeShapes ==
  {St(<<<<"attr", "a", FALSE, t>>>>) : t \in ArgTypes}
  \cup {St(<<<<"label", "n">>, <<"attr", "a", FALSE, t>>, <<"attr", "b", TRUE, <<"int">>>>>>) : t \in {<<"string">>, <<"ptr", <<"bool">>>>, <<"expr">>}}
  \cup {St(<<<<"block", "blk", m, s>>>>) : m \in {"one", "ptr", "slice", "sliceptr"}, s \in {t \in Subs : \A i \in 1..Len(t[2]) : t[2][i][1] # "remain" \/ t[2][i][2][1] = "body"}}
  \cup {St(<<<<"block", "blk", m, s>>, <<"attr", "a", FALSE, <<"string">>>>>>) : m \in {"one", "slice"}, s \in {<<"body">>, <<"attrs">>, <<"block">>}}
  \cup {St(<<<<"block", "svc", "slice", St(<<<<"label", "k">>>>)>>, <<"attr", "a", FALSE, <<"string">>>>, <<"block", "blk", "ptr", St(<<<<"attr", "b", FALSE, <<"bool">>>>, <<"block", "sub", "one", St(<<<<"label", "k">>>>)>>>>)>>>>),
        St(<<<<"block", "blk", "slice", St(<<<<"label", "k">>>>)>>, <<"attr", "blk", FALSE, <<"bool">>>>>>),
        St(<<<<"attr", "z", FALSE, <<"bool">>>>, <<"attr", "a", FALSE, <<"bool">>>>, <<"attr", "m", FALSE, <<"bool">>>>>>)}

Init == /\ shape \in (CASE Group = "args" -> ArgShapes [] Group = "blocks" -> BlockShapes [] OTHER -> EncodeShapes)
        /\ x \in (CASE Group = "args" -> ArgBodies [] Group = "blocks" -> BlockBodies [] OTHER -> PoolShape(shape))
        /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED <<shape, x>>

EmitCase ==
  done =>
    IF Group = "encode" THEN
      CSVWrite("%1$s", <<ToJson([shape |-> shape, val |-> x, items |-> EncodeRec(x, shape[2]), block |-> <<EncodeBlock("top", x, shape)>>,
                                 full |-> FullShape(shape) /\ FullVal(x, shape)])>>, IOEnv.OUT)
    ELSE LET d == IntoShape(Open(x), shape) IN
         CSVWrite("%1$s", <<ToJson([shape |-> shape, body |-> x, v |-> d.v, e |-> d.e, n |-> d.n, any |-> d.any, schema |-> SchemaObs(shape), partial |-> PartialObs(shape)])>>, IOEnv.OUT)

------------------------------------------------------------- (* laws *)
RoundTrip ==
  (Group = "encode" /\ ~done /\ FullShape(shape) /\ FullVal(x, shape)) =>
    LET h == Open(<<"native", <<EncodeBlock("top", x, shape)>>>>)
        d == IntoShape(h, <<"struct", <<<<"block", "top", "one", shape>>>>>>)
    IN d.any \/ (~d.e /\ d.v[2][1] = x)
Complete ==
  (Group # "encode" /\ ~done /\ shape[1] = "struct") =>
    (IsPartial(shape[2]) \/
     LET d == IntoShape(Open(x), shape)
         p == IntoShape(Open(x), <<"struct", Append(shape[2], <<"remain", <<"body">>>>)>>)
     IN d.any \/ p.any \/ (~d.e => (~p.e /\ SubSeq(p.v[2], 1, Len(shape[2])) = d.v[2] /\ p.v[2][Len(p.v[2])] = <<"body", <<>>, <<>>, FALSE>>)))
=============================================================================
