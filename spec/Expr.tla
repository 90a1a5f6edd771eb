-------------------------------- MODULE Expr --------------------------------
(***************************************************************************)
(* Denotational semantics of HCL native syntax expressions.                *)
(*                                                                         *)
(* Expressions are tagged tuples:                                          *)
(*   <<"lit",v>> <<"var",name>> <<"attr",e,name>> <<"idx",e,k>>            *)
(*   <<"splat",src,kind,each>> with <<"item">> for the current element     *)
(*   <<"call",name,args,expand>> <<"cond",c,t,f>> <<"bin",op,l,r>>         *)
(*   <<"un",op,e>> <<"tuple",es>> <<"obj",items>> <<"paren",e>>            *)
(*   <<"fort",k,v,coll,val,hasCond,cond>>                                  *)
(*   <<"foro",k,v,coll,key,val,hasCond,cond,group>>                        *)
(*   <<"tmpl",parts>>  parts: <<"s",text>> <<"i",e>>                       *)
(*       <<"tif",c,parts,parts>> <<"tfor",k,v,coll,parts>>                 *)
(* object items: <<"id",name,val>> or <<"e",key,val>>                      *)
(*                                                                         *)
(* A scope is a sequence of frames, innermost first; a frame maps names to *)
(* values. Evaluation yields <<value, status>>: "ok", "err" (at least one  *)
(* error diagnostic; the value is what later operations see) or "any"      *)
(* (not specified).                                                        *)
(***************************************************************************)
EXTENDS Cty

Worst(a, b) == IF a = "any" \/ b = "any" THEN "any" ELSE IF a = "err" \/ b = "err" THEN "err" ELSE "ok"
RECURSIVE WorstOf(_)
WorstOf(rs) == IF rs = <<>> THEN "ok" ELSE Worst(Head(rs)[2], WorstOf(Tail(rs)))
Ok(v) == <<v, "ok">>
Err(v) == <<v, "err">>
AnyR == <<DynVal, "any">>

---------------------------------------------------------------- (* access *)
Index(c, k) ==
  IF IsNull(c) \/ IsNull(k) THEN Err(DynVal)
  ELSE LET ty == TypeOf(c) kty == TypeOf(k) IN
  IF kty = Dyn \/ ty = Dyn THEN Ok(DynVal)
  ELSE IF ty[1] \in {"list", "tuple"} THEN
    LET kc == Convert(k, Number) IN
    IF kc[1] = "any" THEN AnyR
    ELSE IF kc[1] = "err" THEN Err(DynVal)
    ELSE IF ~IsKnown(kc[2]) \/ (ty[1] = "list" /\ ~IsKnown(c))
         THEN Ok(IF ty[1] = "tuple" THEN DynVal ELSE Unk(ty[2]))
    ELSE LET n == kc[2]
             len == IF ty[1] = "tuple" THEN Len(ty[2]) ELSE Len(c[3])
         IN IF n[3] # 1 \/ n[2] < 0 \/ n[2] >= len THEN Err(DynVal)
            ELSE IF ~IsKnown(c) THEN Ok(Unk(ty[2][n[2] + 1]))
            ELSE IF ty[1] = "tuple" THEN Ok(c[2][n[2] + 1]) ELSE Ok(c[3][n[2] + 1])
  ELSE IF ty[1] = "map" THEN
    LET kc == Convert(k, String) IN
    IF kc[1] = "any" THEN AnyR
    ELSE IF kc[1] = "err" THEN Err(DynVal)
    ELSE IF ~IsKnown(kc[2]) \/ ~IsKnown(c) THEN Ok(Unk(ty[2]))
    ELSE IF kc[2][2] \notin DOMAIN c[3] THEN Err(DynVal) ELSE Ok(c[3][kc[2][2]])
  ELSE IF ty[1] = "object" THEN
    LET kc == Convert(k, String) IN
    IF kc[1] = "any" THEN AnyR
    ELSE IF kc[1] = "err" THEN Err(DynVal)
    ELSE IF ~IsKnown(c) \/ ~IsKnown(kc[2]) THEN Ok(DynVal)
    ELSE IF kc[2][2] \notin DOMAIN c[2] THEN Err(DynVal) ELSE Ok(c[2][kc[2][2]])
  ELSE Err(DynVal)

GetAttr(o, name) ==
  IF IsNull(o) THEN Err(DynVal)
  ELSE LET ty == TypeOf(o) IN
  IF ty[1] = "object" THEN
    (IF name \notin DOMAIN ty[2] THEN Err(DynVal)
     ELSE IF ~IsKnown(o) THEN Ok(Unk(ty[2][name])) ELSE Ok(o[2][name]))
  ELSE IF ty[1] = "map" THEN
    (IF ~IsKnown(o) THEN Ok(Unk(ty[2]))
     ELSE IF name \notin DOMAIN o[3] THEN Err(DynVal) ELSE Ok(o[3][name]))
  ELSE IF ty = Dyn THEN Ok(DynVal)
  ELSE Err(DynVal)

RECURSIVE Lookup(_, _)
Lookup(ctx, name) ==
  IF ctx = <<>> THEN Err(DynVal)
  ELSE IF name \in DOMAIN Head(ctx) THEN Ok(Head(ctx)[name])
  ELSE Lookup(Tail(ctx), name)

---------------------------------------------------------------- (* operators *)
LogicOps == {"&&", "||"}
CmpOps == {"<", "<=", ">", ">="}
ArithOps == {"+", "-", "*", "/", "%"}
EqOps == {"==", "!="}
OpResType(op) == IF op \in ArithOps THEN Number ELSE Bool
OpArgType(op) == IF op \in LogicOps THEN Bool ELSE IF op \in EqOps THEN Dyn ELSE Number

IsZero(n) == n[3] # 0 /\ n[2] = 0
Sign(n) == IF n[2] > 0 THEN 1 ELSE IF n[2] < 0 THEN -1 ELSE 0
Trunc(p, q) == IF p >= 0 THEN p \div q ELSE -((-p) \div q)
FromRes(r, t) == IF r[1] = "ok" THEN Ok(r[2]) ELSE IF r[1] = "err" THEN Err(Unk(t)) ELSE AnyR

NumOp(op, a, b) ==
  CASE op = "+" -> IF IsInf(a) /\ IsInf(b) THEN (IF a[2] = b[2] THEN <<"ok", a>> ELSE <<"err">>)
                   ELSE IF IsInf(a) THEN <<"ok", a>> ELSE IF IsInf(b) THEN <<"ok", b>>
                   ELSE ResNum(a[2] * b[3] + b[2] * a[3], a[3] * b[3])
    [] op = "-" -> IF IsInf(a) /\ IsInf(b) THEN (IF a[2] # b[2] THEN <<"ok", a>> ELSE <<"err">>)
                   ELSE IF IsInf(a) THEN <<"ok", a>> ELSE IF IsInf(b) THEN <<"ok", <<"num", -b[2], 0>>>>
                   ELSE ResNum(a[2] * b[3] - b[2] * a[3], a[3] * b[3])
    [] op = "*" -> IF IsInf(a) \/ IsInf(b)
                   THEN (IF Sign(a) * Sign(b) = 0 THEN <<"err">> ELSE <<"ok", <<"num", Sign(a) * Sign(b), 0>>>>)
                   ELSE IF (IsZero(a) /\ Sign(b) < 0) \/ (IsZero(b) /\ Sign(a) < 0) THEN <<"any">>
                   ELSE IF Abs(a[2]) > 1000 /\ Abs(b[2]) > 1000 THEN <<"any">>
                   ELSE ResNum(a[2] * b[2], a[3] * b[3])
    [] op = "/" -> IF IsInf(a) /\ IsInf(b) THEN <<"err">>
                   ELSE IF IsZero(a) /\ IsZero(b) THEN <<"err">>
                   ELSE IF IsZero(b) THEN <<"ok", <<"num", Sign(a), 0>>>>
                   ELSE IF IsInf(a) THEN <<"ok", <<"num", Sign(a) * Sign(b), 0>>>>
                   ELSE IF IsInf(b) THEN (IF Sign(a) * Sign(b) < 0 \/ (IsZero(a) /\ Sign(b) < 0) THEN <<"any">> ELSE <<"ok", NumI(0)>>)
                   ELSE IF IsZero(a) /\ Sign(b) < 0 THEN <<"any">>
                   ELSE ResNum(a[2] * b[3], a[3] * b[2])
    [] op = "%" -> IF IsInf(a) \/ IsInf(b) \/ IsZero(b) THEN <<"any">>
                   ELSE LET n == a[2] * b[3]
                            d == a[3] * b[2]
                            t == Trunc(n * Sign(b), Abs(d))
                            r == ResNum(a[2] * b[3] - t * b[2] * a[3], a[3] * b[3])
                        IN IF r[1] = "ok" /\ IsZero(r[2]) /\ Sign(a) < 0 THEN <<"any">> ELSE r

BinApply(op, l, r) ==
  IF op \in EqOps THEN
    LET e == EqVal(l, r) IN
    IF e = <<"any">> THEN AnyR
    ELSE IF e[1] = "unk" THEN Ok(e)
    ELSE Ok(BoolV(IF op = "==" THEN e[2] ELSE ~e[2]))
  ELSE IF IsNull(l) \/ IsNull(r) THEN Err(Unk(OpResType(op)))
  ELSE IF ~IsKnown(l) \/ ~IsKnown(r) THEN Ok(Unk(OpResType(op)))
  ELSE CASE op = "&&" -> Ok(BoolV(l[2] /\ r[2]))
         [] op = "||" -> Ok(BoolV(l[2] \/ r[2]))
         [] op = "<" -> Ok(BoolV(NumLess(l, r)))
         [] op = ">" -> Ok(BoolV(NumLess(r, l)))
         [] op = "<=" -> Ok(BoolV(~NumLess(r, l)))
         [] op = ">=" -> Ok(BoolV(~NumLess(l, r)))
         [] OTHER -> FromRes(NumOp(op, l, r), Number)

BinOp(op, l, r) ==  \* l, r evaluation results
  LET cl == Convert(l[1], OpArgType(op))
      cr == Convert(r[1], OpArgType(op))
  IN IF "any" \in {l[2], r[2], cl[1], cr[1]} THEN AnyR
     ELSE IF "err" \in {l[2], r[2], cl[1], cr[1]} THEN Err(Unk(OpResType(op)))
     ELSE BinApply(op, cl[2], cr[2])

UnOp(op, x) ==
  LET t == IF op = "!" THEN Bool ELSE Number
      c == Convert(x[1], t)
  IN IF "any" \in {x[2], c[1]} THEN AnyR
     ELSE IF "err" \in {x[2], c[1]} THEN Err(Unk(t))
     ELSE IF IsNull(c[2]) THEN Err(Unk(t))
     ELSE IF ~IsKnown(c[2]) THEN Ok(Unk(t))
     ELSE IF op = "!" THEN Ok(BoolV(~c[2][2]))
     ELSE IF IsZero(c[2]) THEN AnyR   \* negative zero
     ELSE Ok(<<"num", -c[2][2], c[2][3]>>)

---------------------------------------------------------------- (* functions *)
\* The functions the environment offers. A parameter is <<type, allowNull,
\* allowUnknown, allowDynamic>>.
P(t) == <<t, FALSE, FALSE, FALSE>>
PAny == <<Dyn, TRUE, TRUE, TRUE>>
FnNames == {"id", "dup", "sum", "pair", "fail", "chk", "join"}
FnParams(f) ==
  CASE f = "id" -> <<PAny>>
    [] f = "dup" -> <<P(String)>>
    [] f = "sum" -> <<>>
    [] f = "pair" -> <<P(String), P(Number)>>
    [] f = "fail" -> <<PAny>>
    [] f = "chk" -> <<P(Number)>>
    [] f = "join" -> <<P(<<"list", String>>)>>
FnVar(f) ==
  CASE f = "sum" -> <<P(Number)>>
    [] f = "chk" -> << <<String, TRUE, FALSE, FALSE>> >>
    [] OTHER -> <<>>
FnRet(f, args) ==
  CASE f = "id" -> TypeOf(args[1])
    [] f = "dup" -> String
    [] f = "sum" -> Number
    [] f = "pair" -> <<"tuple", <<String, Number>>>>
    [] f = "fail" -> Dyn
    [] f = "chk" -> Bool
    [] f = "join" -> String

RECURSIVE SumNums(_)
SumNums(ns) == IF ns = <<>> THEN <<"ok", NumI(0)>>
               ELSE LET r == SumNums(SubSeq(ns, 1, Len(ns) - 1)) IN
                    IF r[1] # "ok" THEN r ELSE NumOp("+", r[2], ns[Len(ns)])

FnImpl(f, args) ==
  CASE f = "id" -> Ok(args[1])
    [] f = "dup" -> Ok(Str(args[1][2] \o args[1][2]))
    [] f = "sum" -> LET r == SumNums(args) IN FromRes(r, Dyn)
    [] f = "pair" -> Ok(<<"tuple", <<args[1], args[2]>>>>)
    [] f = "fail" -> Err(DynVal)
    [] f = "chk" -> IF Sign(args[1]) < 0 THEN Err(DynVal)
                    ELSE Ok(BoolV(\A i \in 2..Len(args) : ~IsNull(args[i])))
    [] f = "join" -> LET es == args[1][3] IN
                     IF \E i \in 1..Len(es) : IsNull(es[i]) THEN Err(DynVal)
                     ELSE IF \E i \in 1..Len(es) : ~IsKnown(es[i]) THEN Ok(Unk(String))
                     ELSE Ok(Str(ConcatStrs([i \in 1..Len(es) |-> es[i][2]])))

ParamOf(f, i) == IF i <= Len(FnParams(f)) THEN FnParams(f)[i] ELSE FnVar(f)[1]

\* A call with converted arguments: the first argument that is null where null
\* is not allowed is an error; one of unknown type makes the result type
\* unknown; then any unknown argument makes the result unknown.
RECURSIVE TypeCheckFrom(_, _, _)
TypeCheckFrom(f, args, i) ==
  IF i > Len(args) THEN <<"ok", FnRet(f, args)>>
  ELSE LET p == ParamOf(f, i) IN
       IF IsNull(args[i]) /\ ~p[2] THEN <<"err">>
       ELSE IF TypeOf(args[i]) = Dyn /\ ~p[4] THEN <<"ok", Dyn>>
       ELSE TypeCheckFrom(f, args, i + 1)

CallFn(f, args) ==
  LET tc == TypeCheckFrom(f, args, 1) IN
  IF tc[1] = "err" THEN Err(DynVal)
  ELSE IF \E i \in 1..Len(args) : ~IsKnown(args[i]) /\ ~ParamOf(f, i)[3] THEN Ok(Unk(tc[2]))
  ELSE FnImpl(f, args)

\* rs: evaluation results of the (already expanded) arguments
Call(f, rs) ==
  IF f \notin FnNames THEN Err(DynVal)
  ELSE IF Len(rs) < Len(FnParams(f)) THEN Err(DynVal)
  ELSE IF FnVar(f) = <<>> /\ Len(rs) > Len(FnParams(f)) THEN Err(DynVal)
  ELSE LET cs == [i \in 1..Len(rs) |-> Convert(rs[i][1], ParamOf(f, i)[1])]
           sts == {rs[i][2] : i \in 1..Len(rs)} \cup {cs[i][1] : i \in 1..Len(rs)}
       IN IF "any" \in sts THEN AnyR
          ELSE IF "err" \in sts THEN Err(DynVal)
          ELSE CallFn(f, [i \in 1..Len(cs) |-> cs[i][2]])

---------------------------------------------------------------- (* iteration *)
CanIterate(ty) == ty[1] \in {"list", "set", "map", "tuple", "object"}
Elements(v) ==  \* sequence of <<key, value>>
  CASE v[1] = "list" -> [i \in 1..Len(v[3]) |-> <<NumI(i - 1), v[3][i]>>]
    [] v[1] = "set" -> [i \in 1..Len(v[3]) |-> <<v[3][i], v[3][i]>>]
    [] v[1] = "tuple" -> [i \in 1..Len(v[2]) |-> <<NumI(i - 1), v[2][i]>>]
    [] v[1] = "map" -> LET ks == SortStrs(DOMAIN v[3]) IN [i \in 1..Len(ks) |-> <<Str(ks[i]), v[3][ks[i]]>>]
    [] v[1] = "obj" -> LET ks == SortStrs(DOMAIN v[2]) IN [i \in 1..Len(ks) |-> <<Str(ks[i]), v[2][ks[i]]>>]

ForFrame(k, v, kv, vv) ==
  IF k = "" \/ k = v THEN (v :> vv) ELSE (k :> kv) @@ (v :> vv)

---------------------------------------------------------------- (* conditional *)
Conditional(c, t, f) ==  \* evaluation results
  LET u == IF t[1] = DynNull THEN <<"ok", TypeOf(f[1])>>
           ELSE IF f[1] = DynNull THEN <<"ok", TypeOf(t[1])>>
           ELSE IF TypeOf(t[1]) = Dyn \/ TypeOf(f[1]) = Dyn THEN <<"ok", Dyn>>
           ELSE Unify2(TypeOf(t[1]), TypeOf(f[1]))
      pick(b) == LET cv == IF TypeOf(b[1]) = u[2] THEN <<"ok", b[1]>> ELSE ConvApply(b[1], u[2]) IN
                 IF cv[1] = "any" THEN AnyR
                 ELSE IF cv[1] = "err" THEN Err(Unk(u[2]))
                 ELSE <<cv[2], Worst(b[2], c[2])>>
  IN IF "any" \in {c[2], t[2], f[2]} \/ u[1] = "any" THEN AnyR
     ELSE IF u[1] = "none" THEN Err(DynVal)
     ELSE IF IsNull(c[1]) THEN Err(Unk(u[2]))
     ELSE IF ~IsKnown(c[1]) THEN <<Unk(u[2]), c[2]>>
     ELSE LET cc == Convert(c[1], Bool) IN
          IF cc[1] = "any" THEN AnyR
          ELSE IF cc[1] = "err" THEN Err(Unk(u[2]))
          ELSE pick(IF cc[2][2] THEN t ELSE f)

---------------------------------------------------------------- (* templates *)
\* Concatenation of part results.
TemplateJoin(rs) ==
  LET cs == [i \in 1..Len(rs) |-> IF IsNull(rs[i][1]) THEN <<"err">>
                                  ELSE IF ~IsKnown(rs[i][1]) THEN <<"unk">>
                                  ELSE Convert(rs[i][1], String)]
      sts == {rs[i][2] : i \in 1..Len(rs)}
      kinds == {cs[i][1] : i \in 1..Len(rs)}
      goodparts == SelectSeq(cs, LAMBDA c : c[1] = "ok")
      v == IF "unk" \in kinds THEN Unk(String)
           ELSE Str(ConcatStrs([i \in 1..Len(goodparts) |-> goodparts[i][2][2]]))
  IN IF "any" \in sts \/ "any" \in kinds THEN AnyR
     ELSE <<v, IF "err" \in sts \/ "err" \in kinds THEN "err" ELSE "ok">>

---------------------------------------------------------------- (* evaluation *)
RECURSIVE Eval(_, _), EvalSeq(_, _), EvalParts(_, _), ForTuple(_, _, _, _, _), ForObject(_, _, _, _, _, _), ObjItems(_, _, _, _, _), Splat(_, _, _, _)

EvalSeq(es, ctx) == [i \in 1..Len(es) |-> Eval(es[i], ctx)]

EvalPart(p, ctx) ==
  CASE p[1] = "s" -> Ok(Str(p[2]))
    [] p[1] = "i" -> Eval(p[2], ctx)
    [] p[1] = "tif" -> Conditional(Eval(p[2], ctx), EvalParts(p[3], ctx), EvalParts(p[4], ctx))
    [] p[1] = "tfor" ->
         LET r == Eval(<<"fort", p[2], p[3], p[4], <<"parts", p[5]>>, FALSE, <<>>>>, ctx) IN
         IF r[2] = "any" THEN AnyR
         ELSE IF r[1][1] = "unk" THEN <<Unk(String), r[2]>>
         ELSE LET es == r[1][2] IN
              IF \E i \in 1..Len(es) : ~IsKnown(es[i]) THEN <<Unk(String), r[2]>>
              ELSE <<Str(ConcatStrs([i \in 1..Len(es) |-> es[i][2]])), r[2]>>
EvalParts(ps, ctx) == TemplateJoin([i \in 1..Len(ps) |-> EvalPart(ps[i], ctx)])

\* State of an iteration: <<values so far, known, status>>
ForTuple(e, els, i, ctx, acc) ==
  IF i > Len(els) THEN
    (IF acc[3] = "any" THEN AnyR ELSE <<IF acc[2] THEN <<"tuple", acc[1]>> ELSE DynVal, acc[3]>>)
  ELSE
  LET c2 == <<ForFrame(e[2], e[3], els[i][1], els[i][2])>> \o ctx
      next(a) == ForTuple(e, els, i + 1, ctx, a)
      val(st) == LET r == Eval(e[5], c2) IN next(<<Append(acc[1], r[1]), acc[2], Worst(st, r[2])>>)
  IN IF ~e[6] THEN val(acc[3])
     ELSE LET c == Eval(e[7], c2)
              st == Worst(acc[3], c[2])
          IN IF IsNull(c[1]) THEN next(<<acc[1], FALSE, IF acc[2] THEN Worst(st, "err") ELSE st>>)
             ELSE IF ~IsKnown(c[1]) THEN next(<<acc[1], FALSE, st>>)
             ELSE LET cc == Convert(c[1], Bool) IN
                  IF cc[1] = "any" THEN AnyR
                  ELSE IF cc[1] = "err" THEN next(<<acc[1], FALSE, IF acc[2] THEN Worst(st, "err") ELSE st>>)
                  ELSE IF ~cc[2][2] THEN next(<<acc[1], acc[2], st>>)
                  ELSE val(st)

\* acc = <<function built so far, known, status>>; grouped values are sequences
ForObject(e, els, i, ctx, acc, group) ==
  IF i > Len(els) THEN
    (IF acc[3] = "any" THEN AnyR
     ELSE IF ~acc[2] THEN <<DynVal, acc[3]>>
     ELSE <<<<"obj", IF group THEN [k \in DOMAIN acc[1] |-> <<"tuple", acc[1][k]>>] ELSE acc[1]>>, acc[3]>>)
  ELSE
  LET c2 == <<ForFrame(e[2], e[3], els[i][1], els[i][2])>> \o ctx
      next(a) == ForObject(e, els, i + 1, ctx, a, group)
      fail(st) == next(<<acc[1], FALSE, IF acc[2] THEN Worst(st, "err") ELSE st>>)
      item(st0) ==
        LET k == Eval(e[5], c2)
            st == Worst(st0, k[2])
        IN IF IsNull(k[1]) THEN fail(st)
           ELSE IF ~IsKnown(k[1]) THEN next(<<acc[1], FALSE, st>>)
           ELSE LET kc == Convert(k[1], String) IN
                IF kc[1] = "any" THEN AnyR
                ELSE IF kc[1] = "err" THEN fail(st)
                ELSE LET v == Eval(e[6], c2)
                         st2 == Worst(st, v[2])
                         ks == kc[2][2]
                     IN IF group THEN
                          next(<<(ks :> Append(IF ks \in DOMAIN acc[1] THEN acc[1][ks] ELSE <<>>, v[1])) @@ acc[1], acc[2], st2>>)
                        ELSE IF ks \in DOMAIN acc[1] THEN next(<<acc[1], acc[2], Worst(st2, "err")>>)
                        ELSE next(<<(ks :> v[1]) @@ acc[1], acc[2], st2>>)
  IN IF ~e[7] THEN item(acc[3])
     ELSE LET c == Eval(e[8], c2)
              st == Worst(acc[3], c[2])
          IN IF IsNull(c[1]) THEN fail(st)
             ELSE LET cc == Convert(c[1], Bool) IN
                  IF cc[1] = "any" THEN AnyR
                  ELSE IF cc[1] = "err" THEN fail(st)
                  ELSE IF ~IsKnown(cc[2]) THEN next(<<acc[1], FALSE, st>>)
                  ELSE IF ~cc[2][2] THEN next(<<acc[1], acc[2], st>>)
                  ELSE item(st)

For(e, ctx, hasCond, cond) ==
  LET c == Eval(e[4], ctx)
      pre == IF hasCond THEN Eval(cond, <<ForFrame(e[2], e[3], DynVal, DynVal)>> \o ctx) ELSE Ok(BoolV(TRUE))
      prec == Convert(pre[1], Bool)
  IN IF c[2] = "any" THEN AnyR
     ELSE IF IsNull(c[1]) THEN Err(DynVal)
     ELSE IF TypeOf(c[1]) = Dyn THEN <<DynVal, c[2]>>
     ELSE IF ~CanIterate(TypeOf(c[1])) THEN Err(DynVal)
     ELSE IF ~IsKnown(c[1]) THEN <<DynVal, c[2]>>
     ELSE IF pre[2] = "any" \/ prec[1] = "any" THEN AnyR
     ELSE IF pre[2] = "err" \/ IsNull(pre[1]) \/ prec[1] = "err" THEN Err(DynVal)
     ELSE IF e[1] = "fort" THEN ForTuple(e, Elements(c[1]), 1, ctx, <<<<>>, TRUE, c[2]>>)
     ELSE ForObject(e, Elements(c[1]), 1, ctx, <<NoFn, TRUE, c[2]>>, e[9])

ItemFrame(v) == ("(item)" :> v)

ObjItems(items, i, ctx, acc, n) ==  \* acc = <<fn, known, status>>
  IF i > n THEN
    (IF acc[3] = "any" THEN AnyR ELSE <<IF acc[2] THEN <<"obj", acc[1]>> ELSE DynVal, acc[3]>>)
  ELSE
  LET it == items[i]
      k == IF it[1] = "id" THEN Ok(Str(it[2])) ELSE Eval(it[2], ctx)
      v == Eval(it[3], ctx)
      st == Worst(acc[3], Worst(k[2], v[2]))
      kc == Convert(k[1], String)
      next(a) == ObjItems(items, i + 1, ctx, a, n)
  IN IF st = "any" THEN AnyR
     ELSE IF k[2] = "err" THEN next(<<acc[1], FALSE, st>>)
     ELSE IF IsNull(k[1]) THEN next(<<acc[1], FALSE, "err">>)
     ELSE IF kc[1] = "any" THEN AnyR
     ELSE IF kc[1] = "err" THEN next(<<acc[1], FALSE, "err">>)
     ELSE IF ~IsKnown(kc[2]) THEN next(<<acc[1], FALSE, st>>)
     ELSE next(<<(kc[2][2] :> v[1]) @@ acc[1], acc[2], st>>)

Splat(src, each, ctx, kind) ==
  LET s == Eval(src, ctx)
      ev(v) == Eval(each, <<ItemFrame(v)>> \o ctx)
      up == TypeOf(s[1])[1] \notin {"tuple", "list", "set"}
      v == IF up THEN <<"tuple", <<s[1]>>>> ELSE s[1]
      ty == TypeOf(v)
      \* the type of the result, found by evaluating on unknown elements
      probes == IF ty[1] = "tuple" THEN [i \in 1..Len(ty[2]) |-> ev(Unk(ty[2][i]))] ELSE <<ev(Unk(ty[2]))>>
      resTy == IF ty[1] = "tuple" THEN <<"tuple", [i \in 1..Len(probes) |-> TypeOf(probes[i][1])]>>
               ELSE <<"list", TypeOf(probes[1][1])>>
  IN IF s[2] = "any" THEN AnyR
     ELSE IF s[2] = "err" THEN Err(DynVal)
     ELSE IF s[1] = DynVal THEN Ok(DynVal)
     ELSE IF IsNull(s[1]) THEN (IF up THEN Ok(<<"tuple", <<>>>>) ELSE Err(DynVal))
     ELSE IF ~IsKnown(v) THEN
          (IF WorstOf(probes) = "any" THEN AnyR ELSE <<Unk(resTy), WorstOf(probes)>>)
     ELSE LET els == Elements(v)
              rs == [i \in 1..Len(els) |-> ev(els[i][2])]
              st == WorstOf(rs)
              tys == {TypeOf(rs[i][1]) : i \in 1..Len(rs)}
          IN IF st = "any" THEN AnyR
             ELSE IF st = "err" THEN (IF WorstOf(probes) = "any" THEN AnyR ELSE Err(Unk(resTy)))
             ELSE IF ty[1] = "tuple" THEN Ok(<<"tuple", [i \in 1..Len(rs) |-> rs[i][1]]>>)
             ELSE IF Len(rs) = 0 THEN
                  (IF WorstOf(probes) = "any" THEN AnyR ELSE <<<<"list", resTy[2], <<>>>>, WorstOf(probes)>>)
             ELSE IF Cardinality(tys) = 1
                  THEN IF HasDyn(CHOOSE t \in tys : TRUE) THEN AnyR
                       ELSE Ok(<<"list", CHOOSE t \in tys : TRUE, [i \in 1..Len(rs) |-> rs[i][1]]>>)
             ELSE Ok(<<"tuple", [i \in 1..Len(rs) |-> rs[i][1]]>>)

\* Functions defined by the configuration are kept in a frame of the scope
\* under the name "(fns)": [defs, vars, rec, builtin]; see UserFunc.
RECURSIVE UserFns(_)
UserFns(ctx) == IF ctx = <<>> THEN <<>> ELSE IF "(fns)" \in DOMAIN Head(ctx) THEN <<Head(ctx)["(fns)"]>> ELSE UserFns(Tail(ctx))
NoBuiltin(ctx) == \E i \in 1..Len(ctx) : "(nofn)" \in DOMAIN ctx[i]
\* d: [params, var (<<>> or <<name>>), body]; unknown and null arguments are
\* left open
UserCall(d, fns, rs) ==
  LET np == Len(d.params) n == Len(rs) IN
  IF n < np \/ (d.var = <<>> /\ n > np) THEN Err(DynVal)
  ELSE IF \E i \in 1..n : rs[i][2] = "err" THEN Err(DynVal)
  ELSE IF \E i \in 1..n : rs[i][2] = "any" \/ IsNull(rs[i][1]) \/ ~WhollyKnown(rs[i][1]) THEN AnyR
  ELSE LET names == {d.params[i] : i \in 1..np} \cup {d.var[i] : i \in 1..Len(d.var)}
           frame == [x \in names |-> IF d.var # <<>> /\ d.var[1] = x THEN <<"tuple", [j \in 1..(n - np) |-> rs[np + j][1]]>>
                                     ELSE rs[CHOOSE i \in 1..np : d.params[i] = x][1]]
           r == Eval(d.body, <<frame>> \o fns.vars \o (IF fns.rec THEN <<[x \in {"(fns)"} |-> fns]>> ELSE <<>>)
                                 \o (IF fns.builtin THEN <<>> ELSE <<[x \in {"(nofn)"} |-> TRUE]>>))
       IN IF r[2] = "any" THEN AnyR ELSE IF r[2] = "err" THEN Err(DynVal) ELSE r

CallExpr(e, ctx) ==
  LET f == e[2]
      args == e[3]
      n == Len(args)
      u == UserFns(ctx)
      user == u # <<>> /\ f \in DOMAIN u[1].defs
      Do(rs) == IF user THEN UserCall(u[1].defs[f], u[1], rs) ELSE Call(f, rs)
  IN IF ~user /\ (f \notin FnNames \/ NoBuiltin(ctx)) THEN Err(DynVal)
     ELSE IF ~e[4] THEN Do(EvalSeq(args, ctx))
     ELSE LET x == Eval(args[n], ctx) IN
          IF x[2] = "any" THEN AnyR
          ELSE IF x[2] = "err" THEN Err(DynVal)
          ELSE IF x[1] = DynVal THEN Ok(DynVal)
          ELSE IF TypeOf(x[1])[1] \notin {"tuple", "list", "set"} THEN Err(DynVal)
          ELSE IF IsNull(x[1]) THEN Err(DynVal)
          ELSE IF ~IsKnown(x[1]) THEN Ok(DynVal)
          ELSE LET els == Elements(x[1]) IN
               Do(EvalSeq(SubSeq(args, 1, n - 1), ctx) \o [i \in 1..Len(els) |-> Ok(els[i][2])])

Eval(e, ctx) ==
  CASE e[1] = "lit" -> Ok(e[2])
    [] e[1] = "var" -> Lookup(ctx, e[2])
    [] e[1] = "item" -> Lookup(ctx, "(item)")
    [] e[1] \in {"paren", "wrap"} -> Eval(e[2], ctx)
    [] e[1] = "attr" -> LET s == Eval(e[2], ctx) r == GetAttr(s[1], e[3]) IN
                        IF "any" \in {s[2], r[2]} THEN AnyR ELSE <<r[1], Worst(s[2], r[2])>>
    [] e[1] = "idx" -> LET s == Eval(e[2], ctx)
                           k == Eval(e[3], ctx)
                           r == Index(s[1], k[1])
                       IN IF "any" \in {s[2], k[2], r[2]} THEN AnyR ELSE <<r[1], Worst(s[2], Worst(k[2], r[2]))>>
    [] e[1] = "bin" -> BinOp(e[2], Eval(e[3], ctx), Eval(e[4], ctx))
    [] e[1] = "un" -> UnOp(e[2], Eval(e[3], ctx))
    [] e[1] = "cond" -> Conditional(Eval(e[2], ctx), Eval(e[3], ctx), Eval(e[4], ctx))
    [] e[1] = "tuple" -> LET rs == EvalSeq(e[2], ctx) IN
                         IF WorstOf(rs) = "any" THEN AnyR
                         ELSE <<<<"tuple", [i \in 1..Len(rs) |-> rs[i][1]]>>, WorstOf(rs)>>
    [] e[1] = "obj" -> ObjItems(e[2], 1, ctx, <<NoFn, TRUE, "ok">>, Len(e[2]))
    [] e[1] = "fort" -> For(e, ctx, e[6], e[7])
    [] e[1] = "foro" -> For(e, ctx, e[7], e[8])
    [] e[1] = "splat" -> Splat(e[2], e[4], ctx, e[3])
    [] e[1] = "call" -> CallExpr(e, ctx)
    [] e[1] = "tmpl" -> IF Len(e[2]) = 1 /\ e[2][1][1] = "i" THEN Eval(e[2][1][2], ctx) ELSE EvalParts(e[2], ctx)
    [] e[1] = "parts" -> EvalParts(e[2], ctx)
=============================================================================
