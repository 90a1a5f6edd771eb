--------------------------------- MODULE Dyn ---------------------------------
(***************************************************************************)
(* References in arguments and the expansion of dynamic blocks.            *)
(*                                                                         *)
(* The value of an argument may hold <<"ref", name>> and                   *)
(* <<"path", name, <<step..>>>> (in JSON "${name}", "${name.step}").       *)
(* Scope is what arguments are evaluated in, ForScope what expansion is    *)
(* given for the for_each and labels arguments of dynamic blocks.          *)
(*                                                                         *)
(* A dynamic block is an ordinary block of type "dynamic"; only a handle   *)
(*   <<"d", handle, iterators, unknown, types read>>                       *)
(* gives it meaning: reading replaces it in place by one block for each    *)
(* element, in whose content the iterator has been substituted by its key  *)
(* and value.  Below an unknown collection every argument is unknown.      *)
(***************************************************************************)
EXTENDS Body

Scope == [s |-> Str("hi"), n |-> NumI(7), u |-> Unk(String), d |-> DynVal, z |-> DynNull,
          l |-> <<"list", String, <<Str("p"), Str("q")>>>>, o |-> <<"obj", [k |-> NumI(1)]>>]
ForScope == [s |-> Str("fe"), n |-> NumI(7), u |-> Unk(String), d |-> DynVal, z |-> DynNull,
             l |-> <<"list", String, <<Str("p"), Str("q")>>>>, o |-> <<"obj", [k |-> NumI(1)]>>,
             t |-> <<"set", String, <<Str("g"), Str("h")>>>>, m |-> <<"map", Number, [j |-> NumI(3), k |-> NumI(4)]>>,
             e |-> <<"list", String, <<>>>>, ul |-> Unk(<<"list", String>>), nl |-> Null(<<"list", String>>),
             ll |-> <<"tuple", <<<<"tuple", <<Str("i"), Str("j")>>>>, <<"tuple", <<>>>>, <<"list", String, <<Str("k")>>>>>>>>,
             ou |-> <<"tuple", <<<<"obj", [k |-> Str("v1")]>>, <<"obj", [k |-> Unk(String)]>>>>>>]
RefNames == DOMAIN ForScope \cup {"bad", "s2", "it", "x", "y", "b", "c", "blk", "sub", "svc"}
IterNames == {"b", "c", "d", "blk", "sub", "svc", "it", "x", "y", "s", "n"}
PathSteps == {<<"key">>, <<"value">>, <<"value", "k">>, <<"nope">>, <<"value", "value">>}
RefText(n) == "${" \o n \o "}"
StepsText(st) == IF Len(st) = 1 THEN "." \o st[1] ELSE "." \o st[1] \o "." \o st[2]
PathText(n, st) == "${" \o n \o StepsText(st) \o "}"
RefTab == [x \in {RefText(n) : n \in RefNames} |-> <<"ref", CHOOSE n \in RefNames : RefText(n) = x>>]
PathTab == TLCEval([x \in {PathText(n, st) : n \in IterNames, st \in PathSteps} |->
                    LET p == CHOOSE q \in IterNames \X PathSteps : PathText(q[1], q[2]) = x IN <<"path", p[1], p[2]>>])
\* a string of a JSON document as the reference it is, or itself
JsonRef(v) == IF v[2] \in DOMAIN RefTab THEN RefTab[v[2]] ELSE IF v[2] \in DOMAIN PathTab THEN PathTab[v[2]] ELSE v

RECURSIVE ResolveIn(_, _), RefsOf(_), Steps(_, _), Subst(_, _)
\* following a path: the value, or <<"err">>
Step(v, n) ==
  IF v = <<"err">> THEN v
  ELSE IF v = DynVal THEN v
  ELSE IF v[1] = "obj" THEN (IF n \in DOMAIN v[2] THEN v[2][n] ELSE <<"err">>)
  ELSE IF v[1] = "map" THEN (IF n \in DOMAIN v[3] THEN v[3][n] ELSE <<"err">>)
  ELSE IF v[1] = "unk" /\ v[2][1] = "map" THEN Unk(v[2][2])
  ELSE <<"err">>
Steps(v, st) == IF st = <<>> THEN v ELSE Steps(Step(v, st[1]), Tail(st))
\* value of an argument: [v, e, any]
Ok(v) == [v |-> v, e |-> FALSE, any |-> FALSE]
Bad == [v |-> DynVal, e |-> TRUE, any |-> FALSE]
ResolveIn(v, sc) ==
  CASE v[1] = "ref" -> IF v[2] \in DOMAIN sc THEN Ok(sc[v[2]]) ELSE Bad
    [] v[1] = "path" -> IF v[2] \in DOMAIN sc THEN LET x == Steps(sc[v[2]], v[3]) IN IF x = <<"err">> THEN Bad ELSE Ok(x) ELSE Bad
    [] v[1] = "str" -> LET r == JsonRef(v) IN IF r = v THEN Ok(v) ELSE ResolveIn(r, sc)
    [] v[1] = "tuple" -> LET rs == TLCEval([i \in 1..Len(v[2]) |-> ResolveIn(v[2][i], sc)]) IN
                         [v |-> <<"tuple", [i \in 1..Len(rs) |-> rs[i].v]>>, e |-> \E i \in 1..Len(rs) : rs[i].e, any |-> \E i \in 1..Len(rs) : rs[i].any]
    [] v[1] = "obj" -> LET rs == TLCEval([k \in DOMAIN v[2] |-> ResolveIn(v[2][k], sc)]) IN
                       [v |-> <<"obj", [k \in DOMAIN rs |-> rs[k].v]>>, e |-> \E k \in DOMAIN rs : rs[k].e, any |-> \E k \in DOMAIN rs : rs[k].any]
    [] v[1] = "evalerr" -> [v |-> DynVal, e |-> TRUE, any |-> TRUE]
    [] v[1] = "err" -> Bad
    [] OTHER -> Ok(v)
Resolve(v) == ResolveIn(v, Scope)
RefsOf(v) ==
  CASE v[1] \in {"ref", "path"} -> {v[2]}
    [] v[1] = "str" -> LET r == JsonRef(v) IN IF r = v THEN {} ELSE {r[2]}
    [] v[1] = "tuple" -> UNION {RefsOf(v[2][i]) : i \in 1..Len(v[2])}
    [] v[1] = "obj" -> UNION {RefsOf(v[2][k]) : k \in DOMAIN v[2]}
    [] v[1] = "evalerr" -> {"?"}   \* repeated names, whose values are gone here: the names are left open
    [] OTHER -> {}
\* an argument with the iterators written out
Subst(v, env) ==
  CASE v[1] = "ref" -> IF v[2] \in DOMAIN env THEN env[v[2]] ELSE v
    [] v[1] = "path" -> IF v[2] \in DOMAIN env THEN Steps(env[v[2]], v[3]) ELSE v
    [] v[1] = "str" -> LET r == JsonRef(v) IN IF r = v THEN v ELSE Subst(r, env)
    [] v[1] = "tuple" -> <<"tuple", TLCEval([i \in 1..Len(v[2]) |-> Subst(v[2][i], env)])>>
    [] v[1] = "obj" -> <<"obj", TLCEval([k \in DOMAIN v[2] |-> Subst(v[2][k], env)])>>
    [] OTHER -> v

------------------------------------------------------------- (* expansion *)
DOpen(b) == <<"d", Open(b), NoFn, FALSE, {}>>
Bind(env, n, k, v) == TLCEval([x \in DOMAIN env \cup {n} |-> IF x = n THEN <<"obj", [key |-> k, value |-> v]>> ELSE env[x]])
AskDynamic(s) == [s EXCEPT !.blocks = Append(@, [t |-> "dynamic", nl |-> 1])]
OnlyDynamic == [attrs |-> <<>>, blocks |-> <<[t |-> "dynamic", nl |-> 1]>>]
SpecSchema(nl) == [attrs |-> <<[n |-> "for_each", req |-> TRUE], [n |-> "iterator", req |-> FALSE]>> \o (IF nl > 0 THEN <<[n |-> "labels", req |-> TRUE]>> ELSE <<>>),
                   blocks |-> <<[t |-> "content", nl |-> 0]>>]
\* the iterator named by an argument of a block of the given syntax, or ""
IterOf(kind, v) == IF kind = "native" THEN (IF v[1] = "ref" THEN v[2] ELSE "")
                   ELSE IF v[1] = "str" /\ v[2] \in IterNames THEN v[2] ELSE ""
KeySeq(S) == SortStrs(S)
\* elements of a known collection: <<[k, v]..>>
Elements(v) ==
  CASE v[1] = "list" -> TLCEval([i \in 1..Len(v[3]) |-> [k |-> NumI(i - 1), v |-> v[3][i]]])
    [] v[1] = "set" -> TLCEval([i \in 1..Len(v[3]) |-> [k |-> v[3][i], v |-> v[3][i]]])
    [] v[1] = "tuple" -> TLCEval([i \in 1..Len(v[2]) |-> [k |-> NumI(i - 1), v |-> v[2][i]]])
    [] v[1] = "map" -> LET ks == KeySeq(DOMAIN v[3]) IN TLCEval([i \in 1..Len(ks) |-> [k |-> Str(ks[i]), v |-> v[3][ks[i]]]])
    [] v[1] = "obj" -> LET ks == KeySeq(DOMAIN v[2]) IN TLCEval([i \in 1..Len(ks) |-> [k |-> Str(ks[i]), v |-> v[2][ks[i]]]])
Iterable(t) == t[1] \in {"list", "set", "map", "tuple", "object"}

NoBlocks == [bs |-> <<>>, err |-> TRUE, any |-> FALSE]
\* what a dynamic block b for blocks of type t with nl labels stands for
Expand(b, t, nl, env, unk) ==
  LET c == TLCEval(Read(b.h, "content", SpecSchema(nl))) IN
  IF c.err THEN NoBlocks
  ELSE LET fe == ResolveIn(Subst(c.attrs["for_each"], env), ForScope)
           it == IF "iterator" \in DOMAIN c.attrs THEN IterOf(b.h[2][1], c.attrs["iterator"]) ELSE t
           ls == IF nl = 0 THEN <<"tuple", <<>>>> ELSE c.attrs["labels"]
           known == fe.v[1] # "unk"
           es == IF known THEN Elements(fe.v) ELSE <<[k |-> DynVal, v |-> DynVal]>>
           envs == TLCEval([i \in 1..Len(es) |-> Bind(env, it, es[i].k, es[i].v)])
           \* the labels of each element: <<label values>> or failed
           lab(i) == TLCEval([j \in 1..nl |-> LET x == ResolveIn(Subst(ls[2][j], envs[i]), ForScope)
                                                  y == Convert(x.v, String)
                                              IN IF x.e \/ y[1] # "ok" THEN Bad ELSE IF y[2][1] # "str" THEN Bad ELSE Ok(y[2])])
           labs == TLCEval([i \in 1..Len(es) |-> lab(i)])
           made == TLCEval([i \in 1..Len(es) |->
                     IF \E j \in 1..nl : labs[i][j].e THEN <<>>
                     ELSE <<[t |-> t, labels |-> TLCEval([j \in 1..nl |-> labs[i][j].v[2]]),
                             h |-> <<"d", c.blocks[1].h, envs[i], unk \/ ~known, {}>>]>>])
       IN IF fe.e \/ fe.any THEN [NoBlocks EXCEPT !.any = fe.any]
          ELSE IF ~Iterable(TypeOf(fe.v)) /\ fe.v # DynVal THEN NoBlocks
          ELSE IF fe.v[1] = "null" THEN NoBlocks
          ELSE IF it = "" THEN NoBlocks
          ELSE IF ls[1] # "tuple" \/ Len(ls[2]) # nl \/ Len(c.blocks) # 1 THEN NoBlocks
          ELSE [bs |-> FlatSeq(made), err |-> \E i \in 1..Len(es) : made[i] = <<>>, any |-> FALSE]

DynRead(h, op, s) ==
  LET env == h[3]
      unk == h[4]
      all == TLCEval(Read(h[2], "partial", OnlyDynamic))
      gone == \A i \in 1..Len(all.blocks) : all.blocks[i].labels[1] \in h[5]
      r == TLCEval(IF op = "just" THEN Read(IF gone /\ all.blocks # <<>> THEN all.remain ELSE h[2], "just", s) ELSE Read(h[2], op, AskDynamic(s)))
      attrs == TLCEval([n \in DOMAIN r.attrs |-> IF unk THEN DynVal ELSE Subst(r.attrs[n], env)])
  IN IF op = "just" THEN [r EXCEPT !.attrs = attrs, !.errs = -1, !.amb = @ \/ "dynamic" \in DOMAIN attrs, !.remain = h]
     ELSE LET seen == h[5] \cup BlockTypes(s)
              \* a dynamic block that cannot be read here as an error of its own
              xs == TLCEval([i \in 1..Len(r.blocks) |->
                      LET b == r.blocks[i] IN
                      IF b.t # "dynamic" THEN [bs |-> <<[t |-> b.t, labels |-> b.labels, h |-> <<"d", b.h, env, unk, {}>>]>>, err |-> FALSE, any |-> FALSE]
                      ELSE IF b.labels[1] \in h[5] THEN [bs |-> <<>>, err |-> FALSE, any |-> FALSE]
                      ELSE IF b.labels[1] \notin BlockTypes(s) THEN [bs |-> <<>>, err |-> op = "content", any |-> FALSE]
                      ELSE Expand(b, b.labels[1], LabelCount(s, b.labels[1]), env, unk)])
          IN [attrs |-> attrs,
              blocks |-> FlatSeq(TLCEval([i \in 1..Len(xs) |-> xs[i].bs])),
              err |-> r.err \/ \E i \in 1..Len(xs) : xs[i].err, errs |-> -1,
              amb |-> r.amb \/ \E i \in 1..Len(xs) : xs[i].any,
              remain |-> <<"d", Read(h[2], "partial", s).remain, env, unk, seen>>]

DRead(h, op, s) == IF h[1] = "d" THEN DynRead(h, op, s) ELSE Read(h, op, s)
\* what is seen of an argument that is evaluated
Seen(v) == LET x == Resolve(v) IN IF x.e THEN <<"evalerr">> ELSE x.v
DObs(r) == [attrs |-> TLCEval([n \in DOMAIN r.attrs |-> Seen(r.attrs[n])]), blocks |-> [i \in 1..Len(r.blocks) |-> <<r.blocks[i].t, r.blocks[i].labels>>], err |-> r.err, errs |-> r.errs]
\* what the recorded value looks like with the empty functions JSON cannot tell apart
RECURSIVE Fix(_), FixT(_)
FixT(t) ==
  CASE t[1] \in {"list", "set", "map"} -> <<t[1], FixT(t[2])>>
    [] t[1] = "tuple" -> <<"tuple", TLCEval([k \in 1..Len(t[2]) |-> FixT(t[2][k])])>>
    [] t[1] = "object" -> <<"object", IF DOMAIN t[2] = {} THEN NoFn ELSE TLCEval([k \in DOMAIN t[2] |-> FixT(t[2][k])])>>
    [] OTHER -> t
Fix(v) ==
  CASE v[1] = "list" -> <<v[1], FixT(v[2]), TLCEval([k \in 1..Len(v[3]) |-> Fix(v[3][k])])>>
    [] v[1] = "set" -> <<v[1], FixT(v[2]), {Fix(v[3][k]) : k \in 1..Len(v[3])}, Len(v[3])>>
    [] v[1] = "map" -> <<"map", FixT(v[2]), IF DOMAIN v[3] = {} THEN NoFn ELSE TLCEval([k \in DOMAIN v[3] |-> Fix(v[3][k])])>>
    [] v[1] = "tuple" -> <<"tuple", TLCEval([k \in 1..Len(v[2]) |-> Fix(v[2][k])])>>
    [] v[1] = "obj" -> <<"obj", IF DOMAIN v[2] = {} THEN NoFn ELSE TLCEval([k \in DOMAIN v[2] |-> Fix(v[2][k])])>>
    [] v[1] \in {"null", "unk"} -> <<v[1], FixT(v[2])>>
    [] OTHER -> v
=============================================================================
