-------------------------------- MODULE Both --------------------------------
(***************************************************************************)
(* One configuration in two syntaxes. items are those of Body with         *)
(* expressions (Expr) as arguments; Translated(items, f) is it in JSON,     *)
(* f one of                                                                *)
(*   "flat"   properties in the order of the items                         *)
(*   "group"  the blocks of a type in one array                            *)
(*   "array"  an array with an object for each item                        *)
(*   "labels" the blocks of a type arranged by their labels                *)
(* A view of a read: arguments with their values in a scope, blocks, error.*)
(* Blocks of different types may come in another order, those with other   *)
(* labels only in the form "labels".                                       *)
(***************************************************************************)
EXTENDS Expr, Body

Forms == {"flat", "group", "array", "labels"}
Lit(e) == CASE e[1] = "lit" -> e[2] [] OTHER -> <<"no">>
JLit(v) == CASE v[1] = "str" -> <<"s", v[2]>> [] v[1] = "num" -> <<"n", v[2]>> [] v[1] = "bool" -> <<"t", v[2]>> [] OTHER -> <<"z">>
RECURSIVE UnderLabels(_, _), ByLabels(_, _, _), Uniq(_), JObj(_, _), JTree(_, _, _)
UnderLabels(ls, o) == IF ls = <<>> THEN o ELSE <<"o", <<<<ls[1], UnderLabels(Tail(ls), o)>>>>>>
Uniq(s) == IF s = <<>> THEN <<>> ELSE LET t == Uniq(SubSeq(s, 1, Len(s) - 1)) x == s[Len(s)] IN IF \E i \in 1..Len(t) : t[i] = x THEN t ELSE Append(t, x)
\* the blocks bs arranged by their labels from d on
ByLabels(bs, d, n) ==
  IF d > n THEN (IF Len(bs) = 1 THEN JObj(bs[1][4], "labels") ELSE <<"a", TLCEval([i \in 1..Len(bs) |-> JObj(bs[i][4], "labels")])>>)
  ELSE LET ks == Uniq([i \in 1..Len(bs) |-> bs[i][3][d]]) IN
       <<"o", TLCEval([k \in 1..Len(ks) |-> <<ks[k], ByLabels(SelectSeq(bs, LAMBDA b : b[3][d] = ks[k]), d + 1, n)>>])>>
JOne(it, f) == IF it[1] = "a" THEN <<it[2], JLit(Lit(it[3]))>> ELSE <<it[2], UnderLabels(it[3], JObj(it[4], f))>>
JTree(items, names, f) ==
  TLCEval([i \in 1..Len(names) |->
    LET its == SelectSeq(items, LAMBDA x : x[2] = names[i]) IN
    IF its[1][1] = "a" THEN JOne(its[1], f)
    ELSE IF f = "labels" THEN <<names[i], ByLabels(its, 1, Len(its[1][3]))>>
    ELSE <<names[i], <<"a", TLCEval([k \in 1..Len(its) |-> UnderLabels(its[k][3], JObj(its[k][4], f))])>>>>])
JObj(items, f) ==
  IF f \in {"flat", "array"} THEN <<"o", TLCEval([i \in 1..Len(items) |-> JOne(items[i], f)])>>
  ELSE <<"o", JTree(items, Uniq([i \in 1..Len(items) |-> items[i][2]]), f)>>
Translated(items, f) == <<"json", IF f = "array" THEN <<"a", TLCEval([i \in 1..Len(items) |-> JObj(<<items[i]>>, "flat")])>> ELSE JObj(items, f)>>

------------------------------------------------------------- (* views *)
OfT(bs, t) == SelectSeq(bs, LAMBDA b : b[1] = t)
Count(bs, x) == Cardinality({i \in 1..Len(bs) : bs[i] = x})
SameBlocks(a, b, f) ==
  /\ Len(a) = Len(b)
  /\ IF f \in {"native", "packed", "stored", "typed"} THEN a = b
     ELSE IF f = "labels" THEN \A i \in 1..Len(a) : Count(a, a[i]) = Count(b, a[i])
     ELSE \A t \in {a[i][1] : i \in 1..Len(a)} : OfT(a, t) = OfT(b, t)
Outcome(r) == IF r[2] = "ok" THEN <<"ok", r[1]>> ELSE <<r[2]>>
ViewOf(r, ctx) == [attrs |-> TLCEval([n \in DOMAIN r.attrs |-> Outcome(Eval(r.attrs[n], ctx))]),
                   blocks |-> [i \in 1..Len(r.blocks) |-> <<r.blocks[i].t, r.blocks[i].labels>>], err |-> r.err]
=============================================================================
