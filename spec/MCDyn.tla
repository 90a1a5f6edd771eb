-------------------------------- MODULE MCDyn --------------------------------
(***************************************************************************)
(* Bodies with dynamic blocks against specifications (Group "dec") and     *)
(* against histories of two reads (Group "read").                          *)
(*   Written: expanding and then reading gives what reading the body with  *)
(*   the blocks written out gives, where that body can be written.         *)
(***************************************************************************)
EXTENDS Dec, Json, IOUtils, CSV
CONSTANTS Group

VARIABLES spec, body, ops, done
vars == <<spec, body, ops, done>>

Fn1(k, s) == [x \in {k} |-> s]
Fn2(k, s, l, t) == [x \in {k, l} |-> IF x = k THEN s ELSE t]
At(n, t, r) == <<"attr", n, t, r>>
Ref(n) == <<"ref", n>>
P(n, st) == <<"path", n, st>>
Attr(n, v) == <<"a", n, v>>
Blk(t, ls, items) == <<"b", t, ls, items>>
Dyn1(t, each, it, ls, content) ==
  Blk("dynamic", <<t>>, <<Attr("for_each", each)>> \o (IF it = <<>> THEN <<>> ELSE <<Attr("iterator", it)>>) \o (IF ls = <<>> THEN <<>> ELSE <<Attr("labels", ls)>>) \o content)
Content(items) == <<Blk("content", <<>>, items)>>

Each == {Ref(n) : n \in {"l", "o", "t", "m", "e", "ul", "d", "nl", "z", "ll", "ou", "s", "n", "u", "bad"}}
        \cup {<<"tuple", <<>>>>, <<"tuple", <<Ref("s"), NumI(2)>>>>, <<"tuple", <<Ref("bad")>>>>, <<"obj", Fn2("k", Ref("d"), "j", Str("w"))>>, <<"tuple", <<DynNull>>>>}
EachFew == {Ref("l"), Ref("m"), Ref("ul"), Ref("ll"), <<"tuple", <<Ref("s"), NumI(2)>>>>}
Iters == {<<>>, Ref("x"), Ref("s"), Ref("c"), P("x", <<"value">>), Str("x"), NumI(1)}
ItName(t, it) == IF it = <<>> THEN t ELSE IF it[1] = "ref" THEN it[2] ELSE t
Vals(it) == {P(it, <<"value">>), P(it, <<"key">>), P(it, <<"value", "k">>), P(it, <<"nope">>), Ref(it), Ref("s"), Ref("bad"), P("b", <<"value">>), <<"tuple", <<P(it, <<"key">>), Ref("n")>>>>}
LabelSets(it) == {<<"tuple", <<P(it, <<"key">>)>>>>, <<"tuple", <<P(it, <<"value">>)>>>>, <<"tuple", <<Str("w")>>>>, <<"tuple", <<>>>>, <<"tuple", <<Str("w"), Str("y")>>>>,
                  Ref("l"), <<"tuple", <<Ref("u")>>>>, <<"tuple", <<Ref("bad")>>>>, <<"tuple", <<Ref("s")>>>>, <<"tuple", <<DynNull>>>>}

OneLevel ==
  {<<Dyn1("b", e, it, <<>>, Content(<<Attr("a", v)>>))>> : e \in Each, it \in Iters, v \in {P("b", <<"value">>), P("x", <<"value">>), Ref("s")}}
  \cup UNION {{<<Dyn1("b", e, it, <<>>, Content(<<Attr("a", v)>>))>> : e \in EachFew, v \in Vals(ItName("b", it))} : it \in Iters}
  \cup {<<Dyn1("b", e, <<>>, <<>>, c)>> : e \in EachFew, c \in {<<>>, Content(<<>>), Content(<<>>) \o Content(<<>>), Content(<<Attr("z", Ref("s"))>>), <<Attr("more", NumI(1))>> \o Content(<<>>), <<Blk("content", <<"w">>, <<>>)>>}}
  \cup {<<Attr("a", Ref("s")), Blk("b", <<>>, <<Attr("a", Str("first"))>>), Dyn1("b", e, <<>>, <<>>, Content(<<Attr("a", P("b", <<"value">>))>>)), Blk("b", <<>>, <<Attr("a", P("b", <<"value">>))>>)>> : e \in EachFew}
  \cup {<<Dyn1("b", e, <<>>, <<>>, Content(<<Attr("a", P("b", <<"key">>))>>)), Dyn1("c", f, <<>>, <<>>, Content(<<Attr("a", P("c", <<"key">>))>>))>> : e, f \in EachFew}
  \cup {<<Blk("dynamic", ls, <<Attr("for_each", Ref("l"))>> \o Content(<<>>))>> : ls \in {<<>>, <<"b", "c">>, <<"zz">>}}
  \cup {<<Blk("dynamic", <<"b">>, Content(<<>>))>>}
Labelled ==
  UNION {{<<Dyn1("b", e, it, ls, Content(<<Attr("a", P(ItName("b", it), <<"value">>))>>))>> : e \in EachFew \cup {Ref("t"), Ref("o")}, ls \in LabelSets(ItName("b", it)) \cup {<<>>}} : it \in {<<>>, Ref("x")}}
\* nested: a dynamic block c in the content of b, and in a static block in it
TwoLevel ==
  UNION {{<<Dyn1("b", e, it, <<>>, Content(<<Dyn1("c", f, jt, <<>>, Content(<<Attr("a", v)>>))>>))>> :
            e \in {Ref("ll"), Ref("l"), Ref("ul"), Ref("ou")}, f \in {P(ItName("b", it), <<"value">>), Ref("m"), P("c", <<"value">>), Ref("bad")},
            v \in {P("b", <<"value">>), P("c", <<"value">>), P("b", <<"key">>), P("x", <<"key">>), <<"tuple", <<P("b", <<"key">>), P("c", <<"key">>)>>>>}}
          : it \in {<<>>, Ref("c"), Ref("x")}, jt \in {<<>>, Ref("b"), Ref("x")}}
  \cup {<<Dyn1("b", e, <<>>, <<>>, Content(<<Attr("a", P("b", <<"key">>)), Blk("c", <<>>, <<Attr("a", P("b", <<"value">>)), Dyn1("b", P("b", <<"value">>), it, <<>>, Content(<<Attr("a", v)>>))>>)>>))>> :
            e \in {Ref("ll"), Ref("ul"), Ref("l")}, it \in {<<>>, Ref("x")}, v \in {P("b", <<"value">>), P("x", <<"value">>)}}
  \cup {<<Blk("b", <<>>, <<Dyn1("c", e, <<>>, <<>>, Content(<<Attr("a", P("c", <<"value">>)), Attr("d", P("b", <<"value">>))>>))>>)>> : e \in EachFew}

\* three deep, the innermost values from any level
Names3 == {<<"b", "c", "d">>, <<"x", "y", "it">>, <<"b", "x", "b">>, <<"x", "x", "d">>, <<"d", "c", "s">>}
ThreeLevel ==
  UNION {LET it(k, t) == IF ns[k] = t THEN <<>> ELSE Ref(ns[k]) IN
         {<<Dyn1("b", Ref("m"), it(1, "b"), <<>>, Content(<<Dyn1("c", f, it(2, "c"), <<>>, Content(<<Attr("a", P(ns[1], <<"key">>)), Dyn1("d", g, it(3, "d"), <<>>, Content(<<Attr("a", v)>>))>>))>>))>> :
            f \in {Ref("l"), <<"tuple", <<P(ns[1], <<"key">>)>>>>}, g \in {Ref("ul"), <<"tuple", <<P(ns[1], <<"value">>), P(ns[2], <<"key">>)>>>>},
            v \in {P(ns[1], <<"value">>), P(ns[2], <<"value">>), P(ns[3], <<"value">>), <<"tuple", <<P(ns[1], <<"key">>), P(ns[2], <<"key">>), P(ns[3], <<"key">>)>>>>}}
         : ns \in Names3}

\* the same bodies in JSON
NativeOf(S) == {<<"native", s>> : s \in S}
RECURSIVE JVal(_), JItems(_), JLabels(_, _)
JVal(v) == CASE v[1] = "ref" -> <<"s", RefText(v[2])>>
             [] v[1] = "path" -> <<"s", PathText(v[2], v[3])>>
             [] v[1] = "tuple" -> <<"a", TLCEval([i \in 1..Len(v[2]) |-> JVal(v[2][i])])>>
             [] v[1] = "obj" -> LET ks == SortStrs(DOMAIN v[2]) IN <<"o", TLCEval([i \in 1..Len(ks) |-> <<ks[i], JVal(v[2][ks[i]])>>])>>
             [] v[1] = "str" -> <<"s", v[2]>>
             [] v[1] = "num" -> <<"n", v[2]>>
             [] v[1] = "bool" -> <<"t", v[2]>>
             [] OTHER -> <<"z">>
JLabels(ls, o) == IF ls = <<>> THEN o ELSE <<"o", <<<<ls[1], JLabels(Tail(ls), o)>>>>>>
JItems(items) == <<"o", TLCEval([i \in 1..Len(items) |->
                    IF items[i][1] = "a" THEN <<items[i][2], IF items[i][2] = "iterator" /\ items[i][3][1] = "ref" THEN <<"s", items[i][3][2]>> ELSE JVal(items[i][3])>>
                    ELSE <<items[i][2], JLabels(items[i][3], JItems(items[i][4]))>>])>>
JsonOf(S) == {<<"json", JItems(s)>> : s \in S}

LabSpec == <<"bobj", "b", 1, At("a", Dyn, FALSE)>>
DecPairs ==
  [s : {<<"btuple", "b", At("a", Dyn, FALSE), 0, 0>>}, b : NativeOf(OneLevel) \cup JsonOf(OneLevel)]
  \cup [s : {<<"blist", "b", At("a", String, FALSE), 1, 2>>, <<"object", Fn2("p", At("a", Dyn, FALSE), "q", <<"btuple", "b", <<"object", Fn1("r", At("a", Dyn, TRUE))>>, 0, 0>>)>>,
              <<"tuple", <<<<"block", "b", At("a", Dyn, FALSE), TRUE>>, <<"btuple", "c", At("a", Dyn, FALSE), 0, 0>>>>>>,
              <<"battrs", "b", Dyn, FALSE>>, <<"battrs", "b", String, FALSE>>, <<"bset", "b", At("a", String, FALSE), 0, 0>>,
              <<"object", NoFn>>, <<"tuple", <<<<"expr", Ref("s")>>, <<"btuple", "b", <<"tuple", <<At("a", Dyn, FALSE), <<"expr", Ref("n")>>>>>>, 0, 0>>>>>>}, b : NativeOf(OneLevel)]
  \cup [s : {LabSpec, <<"btuple", "b", <<"tuple", <<<<"label", 0>>, At("a", Dyn, FALSE)>>>>, 0, 0>>, <<"bmap", "b", 1, At("a", String, FALSE)>>}, b : NativeOf(Labelled) \cup JsonOf(Labelled)]
  \cup [s : {<<"btuple", "b", <<"tuple", <<At("a", Dyn, FALSE), <<"btuple", "c", <<"tuple", <<At("a", Dyn, FALSE), At("d", Dyn, FALSE), <<"btuple", "b", At("a", Dyn, FALSE), 0, 0>>>>>>, 0, 0>>>>>>, 0, 0>>,
              <<"blist", "b", <<"object", Fn1("cs", <<"blist", "c", At("a", String, FALSE), 0, 0>>)>>, 0, 0>>,
              <<"tuple", <<<<"btuple", "b", <<"btuple", "c", At("a", Dyn, FALSE), 0, 0>>, 0, 0>>, <<"btuple", "b", <<"battrs", "c", Dyn, FALSE>>, 0, 0>>>>>>}, b : NativeOf(TwoLevel) \cup JsonOf(TwoLevel)]
  \cup [s : {<<"btuple", "b", <<"btuple", "c", <<"tuple", <<At("a", Dyn, FALSE), <<"btuple", "d", At("a", Dyn, FALSE), 0, 0>>>>>>, 0, 0>>, 0, 0>>}, b : NativeOf(ThreeLevel) \cup JsonOf(ThreeLevel)]

\* histories of reads
Sch(as, bs) == [attrs |-> as, blocks |-> bs]
A1(n, r) == [n |-> n, req |-> r]
B1(t, nl) == [t |-> t, nl |-> nl]
Schemas == {Sch(<<>>, <<>>), Sch(<<A1("a", FALSE)>>, <<>>), Sch(<<A1("a", TRUE)>>, <<B1("b", 0)>>), Sch(<<>>, <<B1("b", 0)>>), Sch(<<>>, <<B1("c", 0)>>),
            Sch(<<A1("a", FALSE), A1("d", FALSE)>>, <<B1("b", 0), B1("c", 0)>>), Sch(<<>>, <<B1("b", 1)>>)}
ReadBodies ==
  NativeOf({<<Attr("a", Ref("s")), Attr("d", NumI(1)), Blk("b", <<>>, <<Attr("a", Str("one"))>>), Dyn1("b", e, it, <<>>, Content(<<Attr("a", P(ItName("b", it), <<"value">>)), Attr("d", Ref("s"))>>)),
              Dyn1("c", f, <<>>, <<>>, Content(<<Attr("a", P("c", <<"key">>)), Blk("b", <<>>, <<Attr("a", P("c", <<"value">>))>>)>>)), Blk("c", <<>>, <<>>)>>
             : e \in {Ref("l"), Ref("ul"), Ref("z")}, f \in {Ref("m"), Ref("e"), Ref("ul")}, it \in {<<>>, Ref("s")}})
  \cup NativeOf({<<Attr("a", Ref("s")), Dyn1("b", e, <<>>, <<>>, Content(<<Attr("a", P("b", <<"value">>)), Dyn1("b", P("b", <<"value">>), it, <<>>, Content(<<Attr("a", P("b", <<"key">>))>>))>>))>>
             : e \in {Ref("ll"), Ref("l"), Ref("ul")}, it \in {<<>>, Ref("x")}})
  \cup NativeOf({<<Dyn1("b", Ref("l"), <<>>, <<>>, Content(<<Attr("a", P("b", <<"value">>))>>))>>, <<Attr("d", Ref("n")), Dyn1("b", Ref("l"), <<>>, <<"tuple", <<P("b", <<"value">>)>>>>, Content(<<Attr("a", P("b", <<"value">>))>>)), Attr("a", Ref("s"))>>})
  \cup JsonOf({<<Attr("a", Ref("s")), Dyn1("b", e, <<>>, <<>>, Content(<<Attr("a", P("b", <<"value">>)), Attr("d", Ref("s"))>>)), Dyn1("c", Ref("m"), <<>>, <<>>, Content(<<Attr("a", P("c", <<"key">>))>>)), Blk("b", <<>>, <<>>)>>
             : e \in {Ref("l"), Ref("ul")}})
  \cup {<<"merge", <<<<"native", <<Attr("a", Ref("s")), Dyn1("b", Ref("l"), <<>>, <<>>, Content(<<Attr("a", P("b", <<"value">>))>>))>>>>,
                     <<"json", JItems(<<Attr("d", Ref("n")), Dyn1("b", Ref("m"), <<>>, <<>>, Content(<<Attr("a", P("b", <<"value">>))>>))>>)>>>>>>}
OpNames == {"content", "partial", "just"}

Init == done = FALSE /\ ops = <<>> /\
        IF Group = "dec" THEN \E p \in DecPairs : spec = p.s /\ body = p.b
        ELSE spec = <<>> /\ body \in ReadBodies
MaxOps == 3
\* handles open after the reads so far
RECURSIVE Handles(_)
Handles(os) == IF os = <<>> THEN <<DOpen(body)>>
               ELSE LET hs == TLCEval(Handles(SubSeq(os, 1, Len(os) - 1)))
                        o == os[Len(os)]
                    IN hs \o Opened(DRead(hs[o.h], o.op, o.schema), o.op)
Next == IF Group = "dec" THEN ~done /\ done' = TRUE /\ UNCHANGED <<spec, body, ops>>
        ELSE /\ Len(ops) < MaxOps /\ UNCHANGED <<spec, body, done>>
             /\ LET n == Len(Handles(ops)) IN
                \* the latest handles first: at most three
                \E h \in (IF n < 4 THEN 1..n ELSE {1, 2, n}), op \in OpNames, s \in Schemas :
                  /\ op = "just" => s = Sch(<<>>, <<>>)
                  /\ (Len(ops) = MaxOps - 1) => h # 1
                  /\ (Len(ops) < MaxOps - 1) => op = "partial"
                  /\ ops' = Append(ops, [h |-> h, op |-> op, schema |-> s])

Wanted == TLCEval([k \in 1..Len(ops) |-> LET hs == Handles(SubSeq(ops, 1, k - 1)) r == DRead(hs[ops[k].h], ops[k].op, ops[k].schema) IN
            [h |-> ops[k].h, op |-> ops[k].op, schema |-> ops[k].schema, want |-> DObs(r), amb |-> r.amb]])
EmitCase ==
  IF Group = "dec" THEN
    done => LET h == DOpen(body)
                d == DecodeBody(h, spec, "content", <<>>, TRUE)
                p == DecodeBody(h, spec, "partial", <<>>, TRUE)
                w == WalkBody(Open(body), spec, {}, TRUE)
                x == WalkBody(Open(body), spec, {}, FALSE)
            IN CSVWrite("%1$s", <<ToJson([spec |-> spec, body |-> body, v |-> d.v, e |-> d.e, any |-> d.any, pe |-> p.e,
                                          walk |-> w.n, wany |-> w.any \/ x.any, expand |-> x.n, after |-> BodyVars(h, spec)])>>, IOEnv.OUT)
  ELSE Len(ops) = MaxOps => CSVWrite("%1$s", <<ToJson([body |-> body, ops |-> Wanted])>>, IOEnv.OUT)

------------------------------------------------------------- (* laws *)
\* What a body looks like with its top-level dynamic blocks written out, when
\* no argument under them needs a value that has no notation.
RECURSIVE SubstItems(_, _)
SubstItems(items, env) == TLCEval([i \in 1..Len(items) |-> IF items[i][1] = "a" THEN <<"a", items[i][2], Subst(items[i][3], env)>>
                                                          ELSE <<"b", items[i][2], items[i][3], SubstItems(items[i][4], env)>>])
RECURSIVE HasDynamic(_)
HasDynamic(items) == \E i \in 1..Len(items) : items[i][1] = "b" /\ (items[i][2] = "dynamic" \/ HasDynamic(items[i][4]))
Simple == Group = "dec" /\ body[1] = "native" /\ \A i \in 1..Len(body[2]) : body[2][i][1] = "b" => ~HasDynamic(body[2][i][4])
WriteOut(items, sc) ==
  FlatSeq(TLCEval([i \in 1..Len(items) |->
     IF items[i][1] = "a" \/ items[i][2] # "dynamic" THEN <<items[i]>>
     ELSE LET b == [t |-> "dynamic", labels |-> items[i][3], h |-> Open(<<"native", items[i][4]>>)]
              x == Expand(b, items[i][3][1], LabelCount(sc, items[i][3][1]), NoFn, FALSE)
          IN [j \in 1..Len(x.bs) |-> <<"b", x.bs[j].t, x.bs[j].labels, SubstItems(x.bs[j].h[2][2][2], x.bs[j].h[3])>>]]))
Written ==
  (~done /\ Simple) =>
    LET d == DecodeBody(DOpen(body), spec, "content", <<>>, TRUE) IN
    \/ d.e \/ d.any
    \/ \E i \in 1..Len(body[2]) : body[2][i][1] = "b" /\ body[2][i][2] = "dynamic" /\ \E j \in 1..Len(body[2][i][4]) : body[2][i][4][j][2] = "for_each" /\ ResolveIn(body[2][i][4][j][3], ForScope).v[1] = "unk"
    \/ d.v = DecodeBody(Open(<<"native", WriteOut(body[2], Schema(spec))>>), spec, "content", <<>>, TRUE).v
=============================================================================
