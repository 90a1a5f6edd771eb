------------------------------- MODULE Struct -------------------------------
(***************************************************************************)
(* Decoding a body into a tagged structure and encoding it again.          *)
(*                                                                         *)
(* A structure type is a sequence of fields:                               *)
(*   <<"attr", name, optional, T>>   <<"label", name>>   <<"plain">>       *)
(*   <<"block", type, mode, shape>>  mode "one" "ptr" "slice" "sliceptr"   *)
(*   <<"remain", shape>>                                                   *)
(* T, the type of an argument: <<"string">> <<"int">> <<"int8">> <<"uint8">>*)
(*   <<"float">> <<"bool">> <<"ptr", T>> <<"slice", T>> <<"map", T>>        *)
(*   <<"cty">> <<"obj", <<<<name, T>>..>>>> <<"expr">> <<"attr">>           *)
(* shape: <<"struct", fields>> <<"gomap", T>> <<"body">> <<"attrs">>        *)
(*   <<"block">> (as a pointer: mode "one" or "slice")                     *)
(*                                                                         *)
(* Values: <<"str", s>> <<"num", p, q>> <<"bool", b>> <<"nil">> <<"ptr", x>>*)
(*   <<"slice", <<x..>>>> <<"map", <<<<k, x>>..>>>> in order of keys       *)
(*   <<"cty", v>> <<"obj", <<x..>>>> <<"rec", <<x..>>>> field by field     *)
(*   <<"expr", v or <<"err">>>> <<"attr", name, v>>                        *)
(*   <<"body", attrs, blocks, err>> <<"block", type, labels, body>>        *)
(* A result is [v, e: error, n: at least so many errors, any].             *)
(***************************************************************************)
EXTENDS Dyn

------------------------------------------------------------- (* types *)
IsRaw(sh) == sh[1] \in {"body", "attrs", "block"}
FieldsOf(S, kind) == SelectSeq(S, LAMBDA f : f[1] = kind)
LabelsIn(sh) == IF sh[1] = "struct" THEN FieldsOf(sh[2], "label") ELSE <<>>
Required(f) == ~f[3] /\ f[4][1] \notin {"ptr", "attr", "expr"}
\* the schema a structure implies
SSchema(S) ==
  LET as == FieldsOf(S, "attr")
      bs == FieldsOf(S, "block")
  IN [attrs |-> TLCEval([i \in 1..Len(as) |-> [n |-> as[i][2], req |-> Required(as[i])]]),
      blocks |-> TLCEval([i \in 1..Len(bs) |-> [t |-> bs[i][2], nl |-> Len(LabelsIn(bs[i][4]))]])]
IsPartial(S) == FieldsOf(S, "remain") # <<>>

RECURSIVE CtyOf(_), Zero(_)
CtyOf(T) ==
  CASE T[1] = "string" -> String
    [] T[1] \in {"int", "int8", "uint8", "float"} -> Number
    [] T[1] = "bool" -> Bool
    [] T[1] = "ptr" -> CtyOf(T[2])
    [] T[1] = "slice" -> <<"list", CtyOf(T[2])>>
    [] T[1] = "map" -> <<"map", CtyOf(T[2])>>
    [] T[1] = "cty" -> Dyn
    [] T[1] = "obj" -> <<"object", TLCEval([k \in {T[2][i][1] : i \in 1..Len(T[2])} |->
                         LET i == CHOOSE j \in 1..Len(T[2]) : T[2][j][1] = k IN CtyOf(T[2][i][2])])>>
Nil == <<"nil">>
Zero(T) ==
  CASE T[1] = "string" -> Str("")
    [] T[1] \in {"int", "int8", "uint8", "float"} -> NumI(0)
    [] T[1] = "bool" -> BoolV(FALSE)
    [] T[1] = "obj" -> <<"obj", TLCEval([i \in 1..Len(T[2]) |-> Zero(T[2][i][2])])>>
    [] T[1] = "cty" -> <<"cty", <<"none">>>>
    [] OTHER -> Nil
RECURSIVE ZeroShape(_), ZeroRec(_)
ZeroField(f) ==
  CASE f[1] = "attr" -> Zero(f[4])
    [] f[1] \in {"label", "plain"} -> Str("")
    [] f[1] = "remain" -> ZeroShape(f[2])
    [] f[1] = "block" -> IF f[3] = "one" THEN ZeroShape(f[4]) ELSE Nil
ZeroRec(S) == <<"rec", TLCEval([i \in 1..Len(S) |-> ZeroField(S[i])])>>
ZeroShape(sh) == IF sh[1] = "struct" THEN ZeroRec(sh[2]) ELSE Nil

------------------------------------------------------------- (* values *)
\* storing a value: <<"ok", x>>, <<"err">> or <<"any">>
RECURSIVE Store(_, _)
Worst(rs) == IF \E i \in 1..Len(rs) : rs[i][1] = "any" THEN <<"any">> ELSE <<"err">>
AllOk(rs) == \A i \in 1..Len(rs) : rs[i][1] = "ok"
StoreNum(v, lo, hi, whole) ==
  IF ~whole THEN IF IsInf(v) THEN <<"any">> ELSE <<"ok", v>>
  ELSE IF IsInf(v) THEN <<"err">>
  ELSE IF v[3] = 1 /\ lo <= v[2] /\ v[2] <= hi THEN <<"ok", v>> ELSE <<"err">>
Store(v, T) ==
  IF T[1] = "cty" THEN <<"ok", <<"cty", v>>>>
  ELSE IF T = <<"ptr", <<"cty">>>> THEN <<"ok", <<"ptr", <<"cty", v>>>>>>
  ELSE IF v[1] = "null" THEN (IF T[1] \in {"ptr", "slice", "map"} THEN <<"ok", Nil>> ELSE <<"err">>)
  ELSE IF v[1] = "unk" THEN <<"err">>
  ELSE CASE T[1] = "ptr" -> LET r == Store(v, T[2]) IN IF r[1] = "ok" THEN <<"ok", <<"ptr", r[2]>>>> ELSE r
         [] T[1] \in {"string", "bool"} -> <<"ok", v>>
         [] T[1] = "int" -> StoreNum(v, -2147483000, 2147483000, TRUE)
         [] T[1] = "int8" -> StoreNum(v, -128, 127, TRUE)
         \* the number library calls the whole part of a fraction exact here
         [] T[1] = "uint8" -> IF v[3] > 1 THEN <<"any">> ELSE StoreNum(v, 0, 255, TRUE)
         [] T[1] = "float" -> StoreNum(v, 0, 0, FALSE)
         [] T[1] = "slice" -> LET rs == TLCEval([i \in 1..Len(v[3]) |-> Store(v[3][i], T[2])]) IN
                              IF AllOk(rs) THEN <<"ok", <<"slice", TLCEval([i \in 1..Len(rs) |-> rs[i][2]])>>>> ELSE Worst(rs)
         [] T[1] = "map" -> LET ks == SortStrs(DOMAIN v[3])
                                rs == TLCEval([i \in 1..Len(ks) |-> Store(v[3][ks[i]], T[2])])
                            IN IF AllOk(rs) THEN <<"ok", <<"map", TLCEval([i \in 1..Len(rs) |-> <<ks[i], rs[i][2]>>])>>>> ELSE Worst(rs)
         [] T[1] = "obj" -> LET rs == TLCEval([i \in 1..Len(T[2]) |-> Store(v[2][T[2][i][1]], T[2][i][2])]) IN
                            IF AllOk(rs) THEN <<"ok", <<"obj", TLCEval([i \in 1..Len(rs) |-> rs[i][2]])>>>> ELSE Worst(rs)

Res(v, e, n, any) == [v |-> v, e |-> e, n |-> n, any |-> any]
Good(v) == Res(v, FALSE, 0, FALSE)
ExprObs(a) == LET x == Resolve(a) IN Res(<<"expr", IF x.e THEN <<"err">> ELSE x.v>>, FALSE, 0, x.any)
\* an argument into a field of type T
IntoArg(name, a, T) ==
  IF T[1] = "expr" THEN ExprObs(a)
  ELSE IF T[1] = "attr" THEN LET x == ExprObs(a) IN Res(<<"attr", name, x.v[2]>>, FALSE, 0, x.any)
  ELSE LET x == Resolve(a)
           c == Convert(x.v, CtyOf(T))
           s == IF c[1] = "ok" THEN Store(c[2], T) ELSE c
       IN Res(IF s[1] = "ok" THEN s[2] ELSE Nil, x.e \/ s[1] = "err", B2I(x.e \/ s[1] = "err"), x.any \/ (~x.e /\ s[1] = "any"))

Sum(rs) == SumF([i \in 1..Len(rs) |-> rs[i].n], Len(rs))
SomeE(rs) == \E i \in 1..Len(rs) : rs[i].e
SomeAny(rs) == \E i \in 1..Len(rs) : rs[i].any
\* errors of a read, at least
ErrsOf(r) == IF r.errs >= 0 THEN r.errs ELSE B2I(r.err)

------------------------------------------------------------- (* observers *)
ObsNames == <<"a", "b", "c", "d">>
ObsTypes == <<"blk", "sub", "svc">>
ObsSchema == [attrs |-> [i \in 1..Len(ObsNames) |-> [n |-> ObsNames[i], req |-> FALSE]],
              blocks |-> [i \in 1..Len(ObsTypes) |-> [t |-> ObsTypes[i], nl |-> 0]]]
AttrsObs(r) ==
  LET ks == SortStrs(DOMAIN r.attrs)
      xs == TLCEval([i \in 1..Len(ks) |-> ExprObs(r.attrs[ks[i]])])
  IN Res(TLCEval([i \in 1..Len(ks) |-> <<ks[i], xs[i].v[2]>>]), FALSE, 0, SomeAny(xs))
BodyObs(h) ==
  LET r == TLCEval(Read(h, "content", ObsSchema))
      a == AttrsObs(r)
  IN Res(<<"body", a.v, TLCEval([i \in 1..Len(r.blocks) |-> <<r.blocks[i].t, r.blocks[i].labels>>]), r.err>>, FALSE, 0, a.any \/ r.amb)
JustObs(h) ==
  LET r == TLCEval(Read(h, "just", ObsSchema))
      a == AttrsObs(r)
  IN Res(<<"attrs", a.v>>, r.err, ErrsOf(r), a.any \/ r.amb)

------------------------------------------------------------- (* decoding *)
\* Into...(.., p): into a place that holds p already. What nothing is given for
\* stays, except that blocks are always replaced as a whole.
RECURSIVE IntoShapeP(_, _, _), IntoRec(_, _, _), IntoField(_, _, _)
IntoMap(h, T) ==
  LET r == TLCEval(Read(h, "just", ObsSchema))
      ks == SortStrs(DOMAIN r.attrs)
      xs == TLCEval([i \in 1..Len(ks) |-> IntoArg(ks[i], r.attrs[ks[i]], T)])
  IN Res(<<"map", TLCEval([i \in 1..Len(ks) |-> <<ks[i], xs[i].v>>])>>, r.err \/ SomeE(xs), ErrsOf(r) + Sum(xs), r.amb \/ SomeAny(xs))
IntoShapeP(h, sh, pr) ==
  CASE sh[1] = "struct" -> IntoRec(h, sh[2], pr)
    [] sh[1] = "gomap" -> IntoMap(h, sh[2])
    [] sh[1] = "body" -> BodyObs(h)
    [] sh[1] = "attrs" -> JustObs(h)
\* a block of the given shape; labels go to the label fields in order
IntoBlock(b, sh, pr) ==
  IF sh[1] = "block" THEN LET x == BodyObs(b.h) IN [x EXCEPT !.v = <<"block", b.t, b.labels, @>>]
  ELSE LET x == TLCEval(IntoShapeP(b.h, sh, pr))
           lix == IF sh[1] = "struct" THEN SelectSeq([i \in 1..Len(sh[2]) |-> i], LAMBDA i : sh[2][i][1] = "label") ELSE <<>>
       IN IF lix = <<>> THEN x
          ELSE [x EXCEPT !.v = <<"rec", TLCEval([i \in 1..Len(sh[2]) |->
                 IF sh[2][i][1] = "label" THEN Str(b.labels[CHOOSE j \in 1..Len(lix) : lix[j] = i]) ELSE x.v[2][i]])>>]
IntoField(f, r, pr) ==
  CASE f[1] \in {"label", "plain"} -> Good(pr)
    [] f[1] = "remain" -> IntoShapeP(r.remain, f[2], pr)
    [] f[1] = "attr" ->
         IF f[2] \in DOMAIN r.attrs THEN IntoArg(f[2], r.attrs[f[2]], f[4])
         ELSE IF f[4][1] = "expr" THEN Good(<<"expr", DynNull>>) ELSE Good(pr)
    [] f[1] = "block" ->
         LET bs == SelectSeq(r.blocks, LAMBDA b : b.t = f[2])
             xs == TLCEval([i \in 1..Len(bs) |-> IntoBlock(bs[i], f[4], IF f[3] = "one" THEN pr ELSE ZeroShape(f[4]))])
             p(v) == IF f[3] \in {"ptr", "sliceptr"} THEN <<"ptr", v>> ELSE v
             many == f[3] \in {"slice", "sliceptr"}
         IN IF many THEN
              Res(IF xs = <<>> THEN Nil ELSE <<"slice", TLCEval([i \in 1..Len(xs) |-> p(xs[i].v)])>>, SomeE(xs), Sum(xs), SomeAny(xs))
            ELSE IF Len(xs) > 1 THEN Res(Nil, TRUE, 1, FALSE)
            ELSE IF xs = <<>> THEN (IF f[3] = "ptr" \/ f[4][1] = "block" THEN Good(Nil) ELSE Res(Nil, TRUE, 1, FALSE))
            ELSE [xs[1] EXCEPT !.v = p(@)]
IntoRec(h, S, pr) ==
  LET r == TLCEval(Read(h, IF IsPartial(S) THEN "partial" ELSE "content", SSchema(S)))
      xs == TLCEval([i \in 1..Len(S) |-> IntoField(S[i], r, pr[2][i])])
  IN Res(<<"rec", TLCEval([i \in 1..Len(S) |-> xs[i].v])>>, r.err \/ SomeE(xs), ErrsOf(r) + Sum(xs), r.amb \/ SomeAny(xs))
IntoShape(h, sh) == IntoShapeP(h, sh, ZeroShape(sh))

------------------------------------------------------------- (* encoding *)
RECURSIVE ToCty(_, _), Written(_)
ToCty(x, T) ==
  CASE T[1] = "cty" -> x[2]
    [] T[1] = "obj" -> <<"obj", TLCEval([k \in {T[2][i][1] : i \in 1..Len(T[2])} |->
                         LET i == CHOOSE j \in 1..Len(T[2]) : T[2][j][1] = k IN ToCty(x[2][i], T[2][i][2])])>>
    [] x = Nil -> DynNull
    [] T[1] = "ptr" -> ToCty(x[2], T[2])
    [] T[1] = "slice" -> <<"tuple", TLCEval([i \in 1..Len(x[2]) |-> ToCty(x[2][i], T[2])])>>
    [] T[1] = "map" -> <<"obj", TLCEval([k \in {x[2][i][1] : i \in 1..Len(x[2])} |->
                         LET i == CHOOSE j \in 1..Len(x[2]) : x[2][j][1] = k IN ToCty(x[2][i][2], T[2])])>>
    [] OTHER -> x
\* a value as it reads after having been written
Written(v) ==
  CASE v[1] = "null" -> DynNull
    [] v[1] \in {"list", "set"} -> <<"tuple", TLCEval([i \in 1..Len(v[3]) |-> Written(v[3][i])])>>
    [] v[1] = "tuple" -> <<"tuple", TLCEval([i \in 1..Len(v[2]) |-> Written(v[2][i])])>>
    [] v[1] = "map" -> <<"obj", TLCEval([k \in DOMAIN v[3] |-> Written(v[3][k])])>>
    [] v[1] = "obj" -> <<"obj", TLCEval([k \in DOMAIN v[2] |-> Written(v[2][k])])>>
    [] OTHER -> v

RECURSIVE EncodeRec(_, _), EncodeBlock(_, _, _)
\* the items of the written body, in the order of the fields
EncodeBlock(t, x, sh) ==
  LET lix == SelectSeq([i \in 1..Len(sh[2]) |-> i], LAMBDA i : sh[2][i][1] = "label") IN
  <<"b", t, TLCEval([j \in 1..Len(lix) |-> x[2][lix[j]][2]]), EncodeRec(x, sh[2])>>
EncodeField(f, x) ==
  CASE f[1] = "attr" ->
         IF f[4][1] \in {"expr", "attr"} THEN <<>>
         ELSE IF f[4][1] = "ptr" /\ x = Nil THEN <<>>
         ELSE <<<<"a", f[2], Written(ToCty(x, f[4]))>>>>
    [] f[1] = "block" ->
         IF IsRaw(f[4]) \/ x = Nil THEN <<>>
         ELSE LET xs == IF f[3] \in {"slice", "sliceptr"} THEN x[2] ELSE <<x>>
                  ys == SelectSeq(xs, LAMBDA y : y # Nil)
              IN TLCEval([i \in 1..Len(ys) |-> EncodeBlock(f[2], IF ys[i][1] = "ptr" THEN ys[i][2] ELSE ys[i], f[4])])
    [] OTHER -> <<>>
EncodeRec(x, S) == FlatSeq(TLCEval([i \in 1..Len(S) |-> EncodeField(S[i], x[2][i])]))

\* values that encoding can express in full: no undecoded field, no missing
\* element among blocks, no dynamically typed value of a type literals lack
RECURSIVE FullShape(_), FullVal(_, _), FullArg(_, _)
FullArg(x, T) ==
  CASE T[1] = "cty" -> Written(x[2]) = x[2]
    [] T[1] = "obj" -> \A i \in 1..Len(T[2]) : FullArg(x[2][i], T[2][i][2])
    [] x = Nil -> T # <<"ptr", <<"cty">>>>   \* null is a value of its own
    [] T[1] = "ptr" -> FullArg(x[2], T[2])
    [] T[1] = "slice" -> \A i \in 1..Len(x[2]) : FullArg(x[2][i], T[2])
    [] T[1] = "map" -> \A i \in 1..Len(x[2]) : FullArg(x[2][i][2], T[2])
    [] OTHER -> TRUE
FullShape(sh) == sh[1] = "struct" /\ \A i \in 1..Len(sh[2]) :
  CASE sh[2][i][1] \in {"remain", "plain"} -> FALSE
    [] sh[2][i][1] = "attr" -> sh[2][i][4][1] \notin {"expr", "attr"}
    [] sh[2][i][1] = "block" -> FullShape(sh[2][i][4])
    [] OTHER -> TRUE
FullVal(x, sh) == \A i \in 1..Len(sh[2]) :
  LET f == sh[2][i] y == x[2][i] IN
  CASE f[1] = "attr" -> FullArg(y, f[4])
    [] f[1] = "block" -> y = Nil \/ (IF f[3] \in {"slice", "sliceptr"}
                                     THEN \* no blocks at all reads back as nil
                                          y[2] # <<>> /\ \A j \in 1..Len(y[2]) : y[2][j] # Nil /\ FullVal(IF f[3] = "sliceptr" THEN y[2][j][2] ELSE y[2][j], f[4])
                                     ELSE FullVal(IF f[3] = "ptr" THEN y[2] ELSE y, f[4]))
    [] OTHER -> TRUE
=============================================================================
