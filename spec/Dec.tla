--------------------------------- MODULE Dec ---------------------------------
(***************************************************************************)
(* Decoding a body with a decoding specification.                          *)
(*                                                                         *)
(* Specifications:                                                         *)
(*   <<"object", [key |-> spec]>>  <<"tuple", <<spec..>>>>                 *)
(*   <<"attr", name, type, required>>  <<"lit", value>>  <<"expr", value>> *)
(*   <<"block", type, nested, required>>                                   *)
(*   <<"blist"|"btuple"|"bset", type, nested, min, max>>  (max 0: no limit)*)
(*   <<"bmap"|"bobj", type, number of key labels, nested>>                 *)
(*   <<"battrs", type, element type, required>>  <<"label", index>>        *)
(*   <<"default", primary, default>>                                       *)
(*   <<"xform", wrapped, "pair"|"func"|"fail">>: the tuple of the value and*)
(*      "x", by an expression or by a function; a function failing on null;*)
(*      "undef": an expression that fails                                  *)
(* Values of arguments may hold <<"ref", name>> (in JSON "${name}"), which *)
(* the scope of Dyn resolves.                                                         *)
(* A result is [v |-> value, e |-> error, any |-> left open].              *)
(*                                                                         *)
(* Pinned: with PinEmpty, a map of blocks with several key labels that is  *)
(* empty has the innermost element type, as the existing tests require;    *)
(* the specification proper gives it the implied type.                     *)
(***************************************************************************)
EXTENDS Dyn

------------------------------------------------------------- (* schema *)
\* the specifications that read the same body, this one first
RECURSIVE Same(_), Flatten(_), AnySeq(_)
AnySeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o AnySeq(S \ {x})
Flatten(ss) == FlatSeq(TLCEval([i \in 1..Len(ss) |-> Same(ss[i])]))
Same(s) ==
  <<s>> \o CASE s[1] = "object" -> LET ks == AnySeq(DOMAIN s[2]) IN Flatten([i \in 1..Len(ks) |-> s[2][ks[i]]])
             [] s[1] = "tuple" -> Flatten(s[2])
             [] s[1] = "default" -> Flatten(<<s[2], s[3]>>)
             [] s[1] = "xform" -> Flatten(<<s[2]>>)
             [] OTHER -> <<>>
MaxOf(S) == IF S = {} THEN 0 ELSE CHOOSE x \in S : \A y \in S : y <= x
NLabels(s) == LET q == TLCEval(Same(s)) IN MaxOf({q[i][2] + 1 : i \in {j \in 1..Len(q) : q[j][1] = "label"}})
IsBlockSpec(s) == s[1] \in {"block", "blist", "btuple", "bset", "bmap", "bobj", "battrs"}
NestedOf(s) == IF s[1] \in {"bmap", "bobj"} THEN s[4] ELSE s[3]
HeadLabels(s) == IF s[1] = "battrs" THEN 0 ELSE NLabels(NestedOf(s)) + (IF s[1] \in {"bmap", "bobj"} THEN s[3] ELSE 0)
Schema(s) ==
  LET q == TLCEval(Same(s))
      as == SelectSeq(q, LAMBDA x : x[1] = "attr")
      bs == SelectSeq(q, LAMBDA x : IsBlockSpec(x))
  IN [attrs |-> TLCEval([i \in 1..Len(as) |-> [n |-> as[i][2], req |-> as[i][4]]]),
      blocks |-> TLCEval([i \in 1..Len(bs) |-> [t |-> bs[i][2], nl |-> HeadLabels(bs[i])]])]

------------------------------------------------------------- (* types *)
RECURSIVE Implied(_), MapsOf(_, _)
MapsOf(t, n) == IF n = 0 THEN t ELSE MapsOf(<<"map", t>>, n - 1)
Implied(s) ==
  CASE s[1] = "object" -> <<"object", TLCEval([k \in DOMAIN s[2] |-> Implied(s[2][k])])>>
    [] s[1] = "tuple" -> <<"tuple", TLCEval([i \in 1..Len(s[2]) |-> Implied(s[2][i])])>>
    [] s[1] = "attr" -> s[3]
    [] s[1] = "lit" -> TypeOf(s[2])
    [] s[1] = "block" -> Implied(s[3])
    [] s[1] = "blist" -> <<"list", Implied(s[3])>>
    [] s[1] = "bset" -> <<"set", Implied(s[3])>>
    [] s[1] = "bmap" -> MapsOf(Implied(s[4]), s[3])
    [] s[1] = "battrs" -> <<"map", s[3]>>
    [] s[1] = "label" -> String
    [] s[1] = "default" -> Implied(s[2])
    [] s[1] = "xform" -> IF s[3] = "undef" THEN Dyn ELSE IF s[3] = "fail" THEN Implied(s[2]) ELSE <<"tuple", <<Implied(s[2]), String>>>>
    [] OTHER -> Dyn   \* expr, btuple, bobj

\* a value conforms to a type; a wholly unknown value is a placeholder for any
RECURSIVE Conforms(_, _)
Conforms(v, t) ==
  IF t = Dyn \/ v = DynVal THEN TRUE
  ELSE IF v[1] \in {"list", "set"} THEN t[1] = v[1] /\ (TypeRefines(t[2], v[2]) \/ \A i \in 1..Len(v[3]) : Conforms(v[3][i], t[2]))
  ELSE IF v[1] = "map" THEN t[1] = "map" /\ (TypeRefines(t[2], v[2]) \/ (DOMAIN v[3] # {} /\ \A k \in DOMAIN v[3] : Conforms(v[3][k], t[2])))
  ELSE IF v[1] = "tuple" THEN t[1] = "tuple" /\ Len(t[2]) = Len(v[2]) /\ \A i \in 1..Len(v[2]) : Conforms(v[2][i], t[2][i])
  ELSE IF v[1] = "obj" THEN t[1] = "object" /\ DOMAIN t[2] = DOMAIN v[2] /\ \A k \in DOMAIN v[2] : Conforms(v[2][k], t[2][k])
  ELSE TypeRefines(t, TypeOf(v))

------------------------------------------------------------- (* decoding *)
\* Bring values to one type: <<"ok", type, values>>, <<"err">>, <<"any">>.
OneType(vs) ==
  LET ts == TLCEval([i \in 1..Len(vs) |-> TypeOf(vs[i])]) IN
  IF \A i \in 1..Len(ts) : ts[i] = ts[1] /\ (Len(ts) = 1 \/ ~HasDyn(ts[i])) THEN <<"ok", ts[1], vs>>
  ELSE IF \E i \in 1..Len(ts) : HasDyn(ts[i]) THEN <<"any">>
  ELSE LET u == UnifyN(ts) IN
       IF u[1] = "any" THEN <<"any">>
       ELSE IF u[1] = "none" THEN <<"err">>
       ELSE LET r == ResSeq([i \in 1..Len(vs) |-> Convert(vs[i], u[2])]) IN
            IF r[1] = "ok" THEN <<"ok", u[2], r[2]>> ELSE r

\* sets are compared as sets: Canon
RECURSIVE Canon(_)
Canon(v) ==
  CASE v[1] = "list" -> <<"list", v[2], [i \in 1..Len(v[3]) |-> Canon(v[3][i])]>>
    [] v[1] = "set" -> <<"set", v[2], {Canon(v[3][i]) : i \in 1..Len(v[3])}, Len(v[3])>>
    [] v[1] = "map" -> <<"map", v[2], [k \in DOMAIN v[3] |-> Canon(v[3][k])]>>
    [] v[1] = "tuple" -> <<"tuple", [i \in 1..Len(v[2]) |-> Canon(v[2][i])]>>
    [] v[1] = "obj" -> <<"obj", [k \in DOMAIN v[2] |-> Canon(v[2][k])]>>
    [] OTHER -> v
RECURSIVE Distinct(_)
Distinct(vs) == IF vs = <<>> THEN <<>>
                ELSE LET t == Distinct(SubSeq(vs, 1, Len(vs) - 1)) x == vs[Len(vs)] IN
                     IF \E i \in 1..Len(t) : Canon(t[i]) = Canon(x) THEN t ELSE Append(t, x)

OfType(r, t) == SelectSeq(r.blocks, LAMBDA b : b.t = t)
NoSchema == [attrs |-> <<>>, blocks |-> <<>>]

RECURSIVE Decode(_, _, _, _), DecodeBody(_, _, _, _, _), KeyTree(_, _, _, _)
\* the blocks arranged by their first n labels
KeyTree(items, n, kind, depth) ==
  LET keys == {items[i].labels[depth] : i \in 1..Len(items)}
      at(k) == SelectSeq(items, LAMBDA x : x.labels[depth] = k)
      fn == TLCEval([k \in keys |-> IF depth = n THEN at(k)[1].v ELSE KeyTree(at(k), n, kind, depth + 1)])
  IN IF kind = "bobj" THEN <<"obj", fn>>
     ELSE LET k == CHOOSE x \in keys : TRUE IN <<"map", TypeOf(fn[k]), fn>>

\* r is what reading the body gave; labels those of the enclosing block
Decode(s, r, labels, pin) ==
  CASE s[1] = "object" ->
         LET ds == TLCEval([k \in DOMAIN s[2] |-> Decode(s[2][k], r, labels, pin)]) IN
         [v |-> <<"obj", TLCEval([k \in DOMAIN ds |-> ds[k].v])>>, e |-> \E k \in DOMAIN ds : ds[k].e, any |-> \E k \in DOMAIN ds : ds[k].any]
    [] s[1] = "tuple" ->
         LET ds == TLCEval([i \in 1..Len(s[2]) |-> Decode(s[2][i], r, labels, pin)]) IN
         [v |-> <<"tuple", TLCEval([i \in 1..Len(ds) |-> ds[i].v])>>, e |-> \E i \in 1..Len(ds) : ds[i].e, any |-> \E i \in 1..Len(ds) : ds[i].any]
    [] s[1] = "attr" ->
         IF s[2] \notin DOMAIN r.attrs THEN Ok(Null(s[3]))
         ELSE LET x == Resolve(r.attrs[s[2]])
                  c == Convert(x.v, s[3])
              IN [v |-> IF c[1] = "ok" THEN c[2] ELSE Unk(s[3]), e |-> x.e \/ c[1] = "err", any |-> x.any \/ c[1] = "any"]
    [] s[1] = "lit" -> Ok(s[2])
    [] s[1] = "expr" -> Resolve(s[2])
    [] s[1] = "label" -> Ok(Str(labels[s[2] + 1]))
    [] s[1] = "default" ->
         LET p == Decode(s[2], r, labels, pin)
             d == Decode(s[3], r, labels, pin)
         IN IF p.v[1] = "null" THEN [v |-> d.v, e |-> p.e \/ d.e, any |-> p.any \/ d.any]
            ELSE p
    [] s[1] = "xform" ->
         LET w == TLCEval(Decode(s[2], r, labels, pin)) IN
         IF w.e THEN [v |-> Unk(Implied(s)), e |-> TRUE, any |-> w.any]
         ELSE IF s[3] = "undef" THEN [v |-> DynVal, e |-> TRUE, any |-> w.any]
         ELSE IF s[3] = "fail" THEN
            (IF w.v[1] = "null" THEN [v |-> Unk(Implied(s)), e |-> TRUE, any |-> w.any] ELSE w)
         ELSE [v |-> <<"tuple", <<w.v, Str("x")>>>>, e |-> FALSE, any |-> w.any]
    [] s[1] = "block" ->
         LET bs == OfType(r, s[2]) IN
         IF bs = <<>> THEN [v |-> Null(Implied(s)), e |-> s[4], any |-> FALSE]
         ELSE LET d == DecodeBody(bs[1].h, s[3], "content", bs[1].labels, pin) IN
              [v |-> d.v, e |-> d.e \/ Len(bs) > 1, any |-> d.any]
    [] s[1] = "battrs" ->
         LET bs == OfType(r, s[2]) IN
         IF bs = <<>> THEN [v |-> Null(Implied(s)), e |-> s[4], any |-> FALSE]
         ELSE LET j == DRead(bs[1].h, "just", NoSchema)
                  ks == SortStrs(DOMAIN j.attrs)
                  xs == [i \in 1..Len(ks) |-> Resolve(j.attrs[ks[i]])]
                  cs == [i \in 1..Len(ks) |-> Convert(xs[i].v, s[3])]
                  vs == [i \in 1..Len(ks) |-> IF cs[i][1] = "ok" THEN cs[i][2] ELSE Unk(s[3])]
                  u == IF ks = <<>> THEN <<"ok", s[3], vs>> ELSE OneType(vs)
              IN [v |-> IF u[1] = "ok" THEN <<"map", u[2], [k \in DOMAIN j.attrs |-> u[3][CHOOSE i \in 1..Len(ks) : ks[i] = k]]>> ELSE Unk(Implied(s)),
                  e |-> j.err \/ Len(bs) > 1 \/ u[1] = "err" \/ \E i \in 1..Len(ks) : xs[i].e \/ cs[i][1] = "err",
                  any |-> j.amb \/ u[1] = "any" \/ \E i \in 1..Len(ks) : xs[i].any \/ cs[i][1] = "any"]
    [] s[1] \in {"blist", "btuple", "bset"} ->
         LET bs == OfType(r, s[2])
             n == Len(bs)
             ds == TLCEval([i \in 1..n |-> DecodeBody(bs[i].h, s[3], "content", bs[i].labels, pin)])
             vs == TLCEval([i \in 1..n |-> ds[i].v])
             e0 == n < s[4] \/ (s[5] > 0 /\ n > s[5]) \/ \E i \in 1..n : ds[i].e
             a0 == \E i \in 1..n : ds[i].any
         IN IF s[1] = "btuple" THEN [v |-> <<"tuple", vs>>, e |-> e0, any |-> a0]
            ELSE IF n = 0 THEN [v |-> <<IF s[1] = "blist" THEN "list" ELSE "set", Implied(s[3]), <<>>>>, e |-> e0, any |-> FALSE]
            ELSE LET u == IF a0 THEN <<"any">> ELSE OneType(vs) IN
                 IF u[1] # "ok" THEN [v |-> DynVal, e |-> e0 \/ u[1] = "err", any |-> u[1] = "any"]
                 ELSE IF s[1] = "blist" THEN [v |-> <<"list", u[2], u[3]>>, e |-> e0, any |-> FALSE]
                 ELSE [v |-> <<"set", u[2], Distinct(u[3])>>, e |-> e0,
                       any |-> n > 1 /\ (HasDyn(u[2]) \/ \E i \in 1..n : ~WhollyKnown(u[3][i]))]
    [] s[1] \in {"bmap", "bobj"} ->
         LET bs == OfType(r, s[2])
             n == Len(bs)
             ds == TLCEval([i \in 1..n |-> DecodeBody(bs[i].h, s[4], "content", SubSeq(bs[i].labels, s[3] + 1, Len(bs[i].labels)), pin)])
             key(i) == SubSeq(bs[i].labels, 1, s[3])
             dup == \E i, j \in 1..n : i < j /\ key(i) = key(j)
             e0 == dup \/ \E i \in 1..n : ds[i].e
             a0 == \E i \in 1..n : ds[i].any
         IN IF n = 0 THEN Ok(IF s[1] = "bobj" THEN <<"obj", NoFn>>
                             ELSE <<"map", IF pin THEN Implied(s[4]) ELSE Implied(s)[2], NoFn>>)
            ELSE IF a0 \/ (s[1] = "bmap" /\ \E i \in 1..n : TypeOf(ds[i].v) # TypeOf(ds[1].v)) THEN [v |-> DynVal, e |-> e0, any |-> TRUE]
            ELSE [v |-> KeyTree([i \in 1..n |-> [labels |-> bs[i].labels, v |-> ds[i].v]], s[3], s[1], 1), e |-> e0, any |-> FALSE]

DecodeBody(h, s, op, labels, pin) ==
  LET r == TLCEval(DRead(h, op, Schema(s)))
      d == Decode(s, r, labels, pin)
  IN [v |-> d.v, e |-> r.err \/ d.e, any |-> r.amb \/ d.any]

\* What is left after a partial decode: the names of the arguments an
\* attributes-only read still finds, and whether anything at all is left.
Left(h, s) ==
  LET r == DRead(h, "partial", Schema(s))
      j == DRead(r.remain, "just", NoSchema)
      c == DRead(r.remain, "content", NoSchema)
  IN [attrs |-> DOMAIN j.attrs, rest |-> c.err, amb |-> r.amb]

------------------------------------------------------------- (* variables *)
\* Names the decoding of a body refers to.
RECURSIVE Vars(_, _), BodyVars(_, _)
Vars(s, r) ==
  CASE s[1] \in {"object"} -> UNION {Vars(s[2][k], r) : k \in DOMAIN s[2]}
    [] s[1] = "tuple" -> UNION {Vars(s[2][i], r) : i \in 1..Len(s[2])}
    [] s[1] = "default" -> Vars(s[2], r) \cup Vars(s[3], r)
    [] s[1] = "xform" -> Vars(s[2], r)
    [] s[1] = "attr" -> IF s[2] \in DOMAIN r.attrs THEN RefsOf(r.attrs[s[2]]) ELSE {}
    [] s[1] = "expr" -> RefsOf(s[2])
    [] s[1] = "block" -> LET bs == OfType(r, s[2]) IN IF bs = <<>> THEN {} ELSE BodyVars(bs[1].h, s[3])
    [] s[1] = "battrs" -> LET bs == OfType(r, s[2]) IN
                          IF bs = <<>> THEN {} ELSE LET j == DRead(bs[1].h, "just", NoSchema) IN UNION {RefsOf(j.attrs[k]) : k \in DOMAIN j.attrs}
    [] IsBlockSpec(s) -> LET bs == OfType(r, s[2]) IN UNION {BodyVars(bs[i].h, NestedOf(s)) : i \in 1..Len(bs)}
    [] OTHER -> {}
BodyVars(h, s) == Vars(s, DRead(h, "partial", Schema(s)))

\* Names needed for a body whose dynamic blocks will be expanded: everything
\* that the arguments refer to except iterators; with ~full only what the
\* expansion itself refers to.  any: a dynamic block that cannot be expanded,
\* or several blocks where one is wanted.
RECURSIVE WalkBody(_, _, _, _), WalkSpec(_, _, _, _, _)
WalkBody(h, s, its, full) ==
  LET sc == Schema(s)
      r == TLCEval(Read(h, "partial", AskDynamic(sc)))
      dyn == SelectSeq(r.blocks, LAMBDA b : b.t = "dynamic")
      ds == TLCEval([i \in 1..Len(dyn) |->
              LET b == dyn[i]
                  t == b.labels[1]
                  nl == IF t \in BlockTypes(sc) THEN LabelCount(sc, t) ELSE 0
                  c == TLCEval(Read(b.h, "content", SpecSchema(nl)))
                  it == IF "iterator" \in DOMAIN c.attrs THEN IterOf(b.h[2][1], c.attrs["iterator"]) ELSE t
                  bad == t \notin BlockTypes(sc) \/ c.err \/ Len(c.blocks) # 1 \/ it = "" \/ (nl > 0 /\ (c.attrs["labels"][1] # "tuple" \/ Len(c.attrs["labels"][2]) # nl))
              IN IF bad THEN [bad |-> TRUE]
                 ELSE [bad |-> FALSE, t |-> t, h |-> c.blocks[1].h, its |-> its \cup {it},
                       n |-> (RefsOf(c.attrs["for_each"]) \ its) \cup (IF nl > 0 THEN RefsOf(c.attrs["labels"]) \ (its \cup {it}) ELSE {})]])
      ok == SelectSeq(ds, LAMBDA d : ~d.bad)
      st == SelectSeq(r.blocks, LAMBDA b : b.t # "dynamic")
      kids == TLCEval([i \in 1..Len(st) |-> [t |-> st[i].t, h |-> st[i].h, its |-> its]]) \o TLCEval([i \in 1..Len(ok) |-> [t |-> ok[i].t, h |-> ok[i].h, its |-> ok[i].its]])
      w == WalkSpec(s, r.attrs, kids, its, full)
  IN [n |-> w.n \cup UNION {ok[i].n : i \in 1..Len(ok)}, any |-> w.any \/ r.err \/ r.amb \/ Len(ok) # Len(ds)]
WalkAll(ws) == [n |-> UNION {ws[i].n : i \in 1..Len(ws)}, any |-> \E i \in 1..Len(ws) : ws[i].any]
WalkSpec(s, attrs, kids, its, full) ==
  LET leaf(n) == [n |-> IF full THEN n ELSE {}, any |-> FALSE] IN
  CASE s[1] = "attr" -> leaf(IF s[2] \in DOMAIN attrs THEN RefsOf(attrs[s[2]]) \ its ELSE {})
    [] s[1] = "expr" -> leaf(RefsOf(s[2]))
    [] s[1] = "object" -> LET ks == AnySeq(DOMAIN s[2]) IN WalkAll(TLCEval([i \in 1..Len(ks) |-> WalkSpec(s[2][ks[i]], attrs, kids, its, full)]))
    [] s[1] = "tuple" -> WalkAll(TLCEval([i \in 1..Len(s[2]) |-> WalkSpec(s[2][i], attrs, kids, its, full)]))
    [] s[1] = "default" -> WalkAll(<<WalkSpec(s[2], attrs, kids, its, full), WalkSpec(s[3], attrs, kids, its, full)>>)
    [] s[1] = "xform" -> WalkSpec(s[2], attrs, kids, its, full)
    [] IsBlockSpec(s) ->
         LET mine == SelectSeq(kids, LAMBDA k : k.t = s[2])
             one(k) == IF s[1] = "battrs"
                       THEN LET j == Read(k.h, "just", NoSchema) IN
                            [n |-> IF full THEN UNION {RefsOf(j.attrs[x]) : x \in DOMAIN j.attrs} \ k.its ELSE {}, any |-> j.err \/ j.amb]
                       ELSE WalkBody(k.h, NestedOf(s), k.its, full)
             w == WalkAll(TLCEval([i \in 1..Len(mine) |-> one(mine[i])]))
         IN [w EXCEPT !.any = @ \/ (s[1] \in {"block", "battrs"} /\ Len(mine) > 1)]
    [] OTHER -> leaf({})
=============================================================================
