------------------------------ MODULE DecTool ------------------------------
(***************************************************************************)
(* The decoding command: the specification a specification file describes, *)
(* the scope given by it and on the command line, the files read, and what *)
(* is printed.                                                             *)
(*                                                                         *)
(* A specification file is native items whose arguments hold values, types *)
(* <<"type", T>>, references <<"ref", name>> or results <<"xf", kind>>:    *)
(* "pair" ([nested, "x"]), "same" (nested), "undef" (an undefined name).   *)
(* A run: [spec: <<"ok", items>> | <<"missing">> | <<"broken">>,           *)
(*   layers: <<<<"ok", <<<<name, value>>..>>>> | <<"bad">>..>>,            *)
(*   files: <<body | <<"missing">> | <<"broken">>..>>,                     *)
(*   ty: print the type, refs: print the references]                       *)
(***************************************************************************)
EXTENDS Dec
SpecTypes == <<"object", "array", "literal", "attr", "block", "block_list", "block_map", "block_set", "block_attrs", "default", "transform">>
SpecsOf(nl) == [attrs |-> <<>>, blocks |-> TLCEval([i \in 1..Len(SpecTypes) |-> [t |-> SpecTypes[i], nl |-> nl]])]
Args(ns) == [attrs |-> [i \in 1..Len(ns) |-> [n |-> ns[i], req |-> FALSE]], blocks |-> <<>>]
Wrong == [s |-> <<"lit", DynNull>>, e |-> TRUE, any |-> FALSE]

------------------------------------------------------------- (* arguments *)
\* [has, v, e]; a null argument is an absent one
NoArg == [has |-> FALSE, v |-> DynNull, e |-> FALSE]
IsConst(v) == v[1] \notin {"type", "xf", "ref"} /\ RefsOf(v) = {}
Arg(r, n, ty) ==
  IF n \notin DOMAIN r.attrs THEN NoArg
  ELSE IF ~ IsConst(r.attrs[n]) THEN [NoArg EXCEPT !.e = TRUE]
  ELSE LET c == Convert(r.attrs[n], ty) IN
       IF c[1] # "ok" THEN [NoArg EXCEPT !.e = TRUE]
       ELSE [has |-> c[2][1] # "null", v |-> c[2], e |-> FALSE]
TextArg(r, n, dflt) == LET a == Arg(r, n, String) IN IF a.has THEN a.v[2] ELSE dflt
BoolArg(r, n) == LET a == Arg(r, n, Bool) IN a.has /\ a.v[2]
IntArg(r, n) == LET a == Arg(r, n, Number) IN IF a.has THEN a.v[2] ELSE 0
IntBad(r, n) == LET a == Arg(r, n, Number) IN a.e \/ (a.has /\ a.v[3] # 1)
TypeArg(r, n) ==
  IF n \notin DOMAIN r.attrs THEN [v |-> Dyn, e |-> FALSE]
  ELSE IF r.attrs[n][1] = "type" THEN [v |-> r.attrs[n][2], e |-> FALSE]
  ELSE [v |-> Dyn, e |-> r.attrs[n][1] # "null"]
Labels(r) ==   \* the number of labels, or 0
  IF "labels" \notin DOMAIN r.attrs THEN 0
  ELSE LET a == Arg(r, "labels", <<"list", String>>) IN
       IF ~ a.has \/ a.e THEN 0
       ELSE IF \E i \in 1..Len(a.v[3]) : a.v[3][i][1] = "null" THEN 0 ELSE Len(a.v[3])

------------------------------------------------------------- (* specifications *)
RECURSIVE SpecOf(_), SpecsIn(_)
SpecsIn(bs) == TLCEval([i \in 1..Len(bs) |-> SpecOf(bs[i])])
\* the one specification in a body
One(h) ==
  LET r == TLCEval(Read(h, "content", SpecsOf(0))) IN
  IF r.err \/ Len(r.blocks) # 1 THEN Wrong ELSE TLCEval(SpecOf(r.blocks[1]))
SpecOf(b) ==
  LET implied == IF b.labels = <<>> THEN "" ELSE b.labels[1]
      \* blocks: arguments, then the nested specification
      part(ns) == TLCEval(Read(b.h, "partial", Args(ns)))
      blk(r, bad, mk(_, _)) ==
        LET t == TextArg(r, "block_type", implied)
            n == TLCEval(One(r.remain))
        IN [s |-> IF n.e THEN Wrong.s ELSE mk(t, n.s), e |-> bad \/ r.err \/ Arg(r, "block_type", String).e \/ t = "" \/ n.e, any |-> n.any]
  IN
  CASE b.t \in {"object", "array"} ->
         LET r == TLCEval(Read(b.h, "content", SpecsOf(IF b.t = "object" THEN 1 ELSE 0)))
             ss == TLCEval(SpecsIn(r.blocks))
             keys == {r.blocks[i].labels[1] : i \in 1..Len(ss)}
             e == r.err \/ \E i \in 1..Len(ss) : ss[i].e
             any == \E i \in 1..Len(ss) : ss[i].any
         IN IF b.t = "array" THEN [s |-> <<"tuple", [i \in 1..Len(ss) |-> ss[i].s]>>, e |-> e, any |-> any]
            ELSE [s |-> <<"object", [k \in keys |-> ss[CHOOSE i \in 1..Len(ss) : r.blocks[i].labels[1] = k].s]>>, e |-> e,
                  any |-> any \/ Cardinality(keys) # Len(ss)]    \* a property given twice
    [] b.t = "attr" ->
         LET r == TLCEval(Read(b.h, "content", Args(<<"name", "type", "required">>)))
             n == TextArg(r, "name", implied)
             t == TypeArg(r, "type")
         IN [s |-> <<"attr", n, t.v, BoolArg(r, "required")>>, any |-> FALSE,
             e |-> r.err \/ n = "" \/ t.e \/ Arg(r, "name", String).e \/ Arg(r, "required", Bool).e]
    [] b.t = "block" ->
         LET r == part(<<"block_type", "required">>) IN
         blk(r, Arg(r, "required", Bool).e, LAMBDA t, n : <<"block", t, n, BoolArg(r, "required")>>)
    [] b.t \in {"block_list", "block_set"} ->
         LET r == part(<<"block_type", "min_items", "max_items">>) IN
         blk(r, IntBad(r, "min_items") \/ IntBad(r, "max_items"),
             LAMBDA t, n : <<IF b.t = "block_list" THEN "blist" ELSE "bset", t, n, IntArg(r, "min_items"), IntArg(r, "max_items")>>)
    [] b.t = "block_map" ->
         LET r == part(<<"block_type", "labels">>)
             x == TLCEval(blk(r, Labels(r) = 0, LAMBDA t, n : <<"bmap", t, Labels(r), n>>))
         IN IF x.e THEN x ELSE [x EXCEPT !.e = HasDyn(Implied(x.s))]
    [] b.t = "block_attrs" ->
         LET r == TLCEval(Read(b.h, "content", Args(<<"block_type", "element_type", "required">>)))
             n == TextArg(r, "block_type", implied)
             t == TypeArg(r, "element_type")
         IN [s |-> <<"battrs", n, t.v, BoolArg(r, "required")>>, any |-> FALSE,
             e |-> r.err \/ n = "" \/ t.e \/ Arg(r, "block_type", String).e \/ Arg(r, "required", Bool).e]
    [] b.t = "literal" ->
         LET r == TLCEval(Read(b.h, "content", Args(<<"value">>))) IN
         IF r.err \/ "value" \notin DOMAIN r.attrs THEN Wrong
         ELSE IF ~ IsConst(r.attrs["value"]) THEN Wrong
         ELSE [s |-> <<"lit", r.attrs["value"]>>, e |-> FALSE, any |-> FALSE]
    [] b.t = "default" ->
         LET r == TLCEval(Read(b.h, "content", SpecsOf(0)))
             ss == TLCEval(SpecsIn(r.blocks))
             fold[i \in 1..Len(ss)] == IF i = 1 THEN ss[1].s ELSE <<"default", fold[i - 1], ss[i].s>>
         IN IF r.err \/ Len(ss) = 0 \/ \E i \in 1..Len(ss) : ss[i].e THEN Wrong
            ELSE [s |-> fold[Len(ss)], e |-> FALSE, any |-> \E i \in 1..Len(ss) : ss[i].any]
    [] b.t = "transform" ->
         LET r == part(<<"result">>)
             n == TLCEval(One(r.remain))
             x == IF "result" \in DOMAIN r.attrs THEN r.attrs["result"] ELSE DynNull
         IN IF r.err \/ n.e THEN Wrong
            ELSE IF x[1] = "xf" /\ x[2] = "same" THEN n
            ELSE [s |-> <<"xform", n.s, IF x[1] = "xf" THEN x[2] ELSE "undef">>, e |-> FALSE,
                  any |-> n.any \/ x[1] \notin {"xf", "ref", "type"}]   \* a result that is a constant, or missing

------------------------------------------------------------- (* the command *)
\* one type of block used with different numbers of labels is left open
RECURSIVE Clash(_)
Clash(s) ==
  LET q == TLCEval(Same(s)) bs == SelectSeq(q, LAMBDA x : IsBlockSpec(x)) IN
  (\E i, j \in 1..Len(bs) : bs[i][2] = bs[j][2] /\ HeadLabels(bs[i]) # HeadLabels(bs[j]))
  \/ \E i \in 1..Len(bs) : bs[i][1] # "battrs" /\ Clash(NestedOf(bs[i]))
Only(t, nl) == [attrs |-> <<>>, blocks |-> <<[t |-> t, nl |-> nl]>>]
\* the specification file: [s, e, any, funcs (there are some), vars (layers)]
SpecFile(items) ==
  LET f == TLCEval(Read(Open(<<"native", items>>), "partial", Only("function", 1)))
      v == TLCEval(Read(f.remain, "partial", Only("variables", 0)))
      js == TLCEval([i \in 1..Len(v.blocks) |-> Read(v.blocks[i].h, "just", NoSchema)])
      ok(j) == ~ j.err /\ \A n \in DOMAIN j.attrs : IsConst(j.attrs[n])
      o == TLCEval(One(v.remain))
  IN [s |-> o.s, any |-> o.any \/ (~ o.e /\ Clash(o.s)), e |-> o.e \/ f.err \/ v.err \/ \E i \in 1..Len(js) : ~ ok(js[i]),
      funcs |-> Len(f.blocks) > 0,
      vars |-> TLCEval([i \in 1..Len(js) |-> js[i].attrs])]

Overlay(a, b) == [n \in DOMAIN a \cup DOMAIN b |-> IF n \in DOMAIN b THEN b[n] ELSE a[n]]
PairsFn(ps) == [n \in {ps[i][1] : i \in 1..Len(ps)} |-> ps[CHOOSE i \in 1..Len(ps) : ps[i][1] = n][2]]
RECURSIVE Layered(_)
Layered(ls) == IF ls = <<>> THEN NoFn ELSE Overlay(Layered(SubSeq(ls, 1, Len(ls) - 1)), ls[Len(ls)])

\* the body with the names in scope replaced by their values
JOf(v) == CASE v[1] = "str" -> <<"s", v[2]>> [] v[1] = "num" -> <<"n", v[2]>> [] v[1] = "bool" -> <<"t", v[2]>> [] OTHER -> <<"z">>
RECURSIVE InV(_, _), InB(_, _), InJ(_, _)
InV(v, sc) ==
  CASE v[1] = "ref" -> IF v[2] \in DOMAIN sc THEN sc[v[2]] ELSE <<"ref", "bad">>
    [] v[1] = "tuple" -> <<"tuple", TLCEval([i \in 1..Len(v[2]) |-> InV(v[2][i], sc)])>>
    [] v[1] = "obj" -> <<"obj", TLCEval([k \in DOMAIN v[2] |-> InV(v[2][k], sc)])>>
    [] OTHER -> v
InJ(v, sc) ==
  CASE v[1] = "s" -> LET x == JsonRef(Str(v[2])) IN
                     IF x[1] # "ref" THEN v ELSE IF x[2] \in DOMAIN sc THEN JOf(sc[x[2]]) ELSE <<"s", "${bad}">>
    [] v[1] = "a" -> <<"a", TLCEval([i \in 1..Len(v[2]) |-> InJ(v[2][i], sc)])>>
    [] v[1] = "o" -> <<"o", TLCEval([i \in 1..Len(v[2]) |-> <<v[2][i][1], InJ(v[2][i][2], sc)>>])>>
    [] OTHER -> v
InItems(its, sc) == TLCEval([i \in 1..Len(its) |-> IF its[i][1] = "a" THEN <<"a", its[i][2], InV(its[i][3], sc)>> ELSE <<"b", its[i][2], its[i][3], InB(its[i][4], sc)>>])
InB(its, sc) == InItems(its, sc)
In(b, sc) == IF b[1] = "native" THEN <<"native", InItems(b[2], sc)>> ELSE <<"json", InJ(b[2], sc)>>
\* without variables and functions the strings of JSON are literal text
LitText(n) == "lit:" \o n
LitTab == [x \in {LitText(n) : n \in RefNames} |-> RefText(CHOOSE n \in RefNames : LitText(n) = x)]
RECURSIVE LitJ(_)
LitJ(v) ==
  CASE v[1] = "s" -> LET x == JsonRef(Str(v[2])) IN IF x[1] # "ref" THEN v ELSE <<"s", LitText(x[2])>>
    [] v[1] = "a" -> <<"a", TLCEval([i \in 1..Len(v[2]) |-> LitJ(v[2][i])])>>
    [] v[1] = "o" -> <<"o", TLCEval([i \in 1..Len(v[2]) |-> <<v[2][i][1], LitJ(v[2][i][2])>>])>>
    [] OTHER -> v
AsLit(b) == IF b[1] = "native" THEN b ELSE <<"json", LitJ(b[2])>>

------------------------------------------------------------- (* printing *)
RECURSIVE JV(_), TypeJ(_)
JFn(f) == LET ks == {k \in DOMAIN f : JV(f[k]) # <<"z">>} IN <<"o", TLCEval([k \in ks |-> JV(f[k])])>>
JV(v) ==
  CASE v[1] = "str" -> <<"s", IF v[2] \in DOMAIN LitTab THEN LitTab[v[2]] ELSE v[2]>>
    [] v[1] = "num" -> <<"n", v[2], v[3]>>
    [] v[1] = "bool" -> <<"t", v[2]>>
    [] v[1] = "list" -> <<"a", TLCEval([i \in 1..Len(v[3]) |-> JV(v[3][i])])>>
    [] v[1] = "set" -> <<"u", TLCEval([i \in 1..Len(v[3]) |-> JV(v[3][i])])>>
    [] v[1] = "tuple" -> <<"a", TLCEval([i \in 1..Len(v[2]) |-> JV(v[2][i])])>>
    [] v[1] = "map" -> JFn(v[3])
    [] v[1] = "obj" -> JFn(v[2])
    [] OTHER -> <<"z">>
TypeJ(t) ==
  CASE t[1] \in {"list", "set", "map"} -> <<"a", <<<<"s", t[1]>>, TypeJ(t[2])>>>>
    [] t[1] = "tuple" -> <<"a", <<<<"s", "tuple">>, <<"a", TLCEval([i \in 1..Len(t[2]) |-> TypeJ(t[2][i])])>>>>>>
    [] t[1] = "object" -> <<"a", <<<<"s", "object">>, <<"o", TLCEval([k \in DOMAIN t[2] |-> TypeJ(t[2][k])])>>>>>>
    [] t = Dyn -> <<"s", "dynamic">>
    [] OTHER -> <<"s", t[1]>>
Typed(v) ==
  IF v = DynNull THEN <<"z">>
  ELSE LET j == JV(v) t == TypeJ(TypeOf(v)) IN
       <<"o", IF j = <<"z">> THEN [x \in {"type"} |-> t] ELSE [x \in {"type", "value"} |-> IF x = "type" THEN t ELSE j]>>
\* what was printed (objects as pairs) is the wanted document
RECURSIVE SameJ(_, _)
SameJ(w, g) ==
  CASE w[1] = "o" -> g[1] = "o" /\ Len(g[2]) = Cardinality(DOMAIN w[2])
                     /\ \A i \in 1..Len(g[2]) : g[2][i][1] \in DOMAIN w[2] /\ SameJ(w[2][g[2][i][1]], g[2][i][2])
    [] w[1] = "a" -> g[1] = "a" /\ Len(g[2]) = Len(w[2]) /\ \A i \in 1..Len(w[2]) : SameJ(w[2][i], g[2][i])
    [] w[1] = "u" -> g[1] = "a" /\ Len(g[2]) = Len(w[2])
                     /\ (\A i \in 1..Len(w[2]) : \E j \in 1..Len(w[2]) : SameJ(w[2][i], g[2][j]))
                     /\ (\A i \in 1..Len(w[2]) : \E j \in 1..Len(w[2]) : SameJ(w[2][j], g[2][i]))
    [] OTHER -> w = g

------------------------------------------------------------- (* a run *)
\* [fail, any, out (document) or refs (names) and vals (of those in scope)]
Failing == [fail |-> TRUE, any |-> FALSE, out |-> <<"z">>, refs |-> {}, vals |-> NoFn]
Run(r) ==
  IF r.spec[1] # "ok" THEN Failing
  ELSE LET sp == TLCEval(SpecFile(r.spec[2])) IN
    IF sp.any THEN [Failing EXCEPT !.any = TRUE]
    ELSE IF sp.e \/ (\E i \in 1..Len(r.layers) : r.layers[i][1] = "bad") \/ (\E i \in 1..Len(r.files) : r.files[i][1] \in {"missing", "broken"}) THEN Failing
    ELSE LET sc == TLCEval(Layered(sp.vars \o [i \in 1..Len(r.layers) |-> PairsFn(r.layers[i][2])]))
             doc(bs) == IF Len(bs) = 1 THEN bs[1] ELSE <<"merge", bs>>
         IN IF r.refs
            THEN LET vs == TLCEval(BodyVars(Open(doc(r.files)), sp.s)) IN
                 [fail |-> FALSE, any |-> "?" \in vs, out |-> <<"z">>, refs |-> vs, vals |-> TLCEval([n \in vs \cap DOMAIN sc |-> JV(sc[n])])]
            ELSE LET h == Open(doc(TLCEval([i \in 1..Len(r.files) |-> In(IF sc = NoFn /\ ~ sp.funcs THEN AsLit(r.files[i]) ELSE r.files[i], sc)])))
                     d == TLCEval(DecodeBody(h, sp.s, "content", <<>>, FALSE))
                     p == TLCEval(DecodeBody(h, sp.s, "content", <<>>, TRUE))
                 IN IF d.any \/ (r.ty /\ p.v # d.v) THEN [Failing EXCEPT !.any = TRUE]
                    ELSE IF d.e THEN Failing
                    ELSE [fail |-> FALSE, any |-> FALSE, out |-> IF r.ty THEN Typed(d.v) ELSE JV(d.v), refs |-> {}, vals |-> NoFn]
=============================================================================
