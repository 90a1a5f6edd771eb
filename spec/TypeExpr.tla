------------------------------ MODULE TypeExpr ------------------------------
(***************************************************************************)
(* Types written as expressions, and types printed as text.                *)
(* Denotes returns <<status, type>>: ok, err or any (left open).            *)
(***************************************************************************)
EXTENDS Static

Prims == {"string", "number", "bool"}
Wraps == {"list", "set", "map"}
TErr == <<"err", <<"dyn">>>>
TAny == <<"any", <<"dyn">>>>

RECURSIVE Denotes(_, _)
\* exact: any is not allowed
Keyed(kw, exact) ==
  IF kw \in Prims THEN <<"ok", <<kw>>>>
  ELSE IF kw = "any" /\ ~exact THEN <<"ok", <<"dyn">>>>
  ELSE TErr
All(rs, T) == IF \E i \in 1..Len(rs) : rs[i][1] = "err" THEN TErr
              ELSE IF \E i \in 1..Len(rs) : rs[i][1] = "any" THEN TAny ELSE <<"ok", T>>
ObjOf(ps, exact) ==
  LET rs == TLCEval([i \in 1..Len(ps) |-> Denotes(ps[i][2], exact)])
      names == {ps[i][1][2] : i \in 1..Len(ps)}
  IN IF \E i \in 1..Len(ps) : Keyword(KeyPath(ps[i][1])) = "" THEN TErr
     \* other forms of names and repeated names are left open
     ELSE IF (\E i \in 1..Len(ps) : ps[i][1][1] # "name") \/ Cardinality(names) < Len(ps)
     THEN (IF All(rs, <<>>)[1] = "err" THEN TErr ELSE TAny)
     ELSE All(rs, <<"object", [n \in names |-> rs[CHOOSE i \in 1..Len(ps) : ps[i][1][2] = n][2]]>>)
TupOf(es, exact) == LET rs == TLCEval([i \in 1..Len(es) |-> Denotes(es[i], exact)]) IN All(rs, <<"tuple", [i \in 1..Len(rs) |-> rs[i][2]]>>)
CallOf(t, exact) ==
  IF t[2] \notin Wraps \cup {"object", "tuple"} \/ Len(t[3]) # 1 THEN TErr
  ELSE LET a == t[3][1]
           r == CASE t[2] = "object" -> IF a[1] = "obj" THEN ObjOf(a[2], exact) ELSE TErr
                  [] t[2] = "tuple" -> IF a[1] = "tuple" THEN TupOf(a[2], exact) ELSE TErr
                  [] OTHER -> LET e == Denotes(a, exact) IN IF e[1] = "ok" THEN <<"ok", <<t[2], e[2]>>>> ELSE e
       \* an argument list with an expansion is left open
       IN IF t[4] /\ r[1] = "ok" THEN TAny ELSE r
Denotes(t, exact) ==
  LET kw == Keyword(TreePath(t)) IN
  IF kw # "" THEN Keyed(kw, exact)
  ELSE IF t[1] = "call" THEN CallOf(t, exact)
  ELSE TErr

\* the type of a native text, and of a JSON string with the same text
Native(S, exact) == LET f == FrontEnd(S, "expr") IN IF f[1] = "ok" THEN Denotes(f[2], exact) ELSE <<f[1], <<"dyn">>>>
InJson(S, exact) ==
  LET p == PathText(S)
      f == FrontEnd(S, "expr")
  IN IF p[1] = "any" \/ f[1] = "any" THEN TAny
     ELSE IF p[1] = "ok" /\ p[2][2] = <<>> THEN Keyed(p[2][1], exact)
     ELSE IF f[1] = "ok" /\ f[2][1] = "call" THEN CallOf(f[2], exact)
     ELSE TErr

-----------------------------------------------------------------------------
(* Printing. Attribute names are printed in alphabetical order.             *)
Alphabet == <<"a", "b", "for", "list", "null", "string", "x-y", "z">>
RECURSIVE Printed(_), Commas(_)
Commas(ss) == IF ss = <<>> THEN "" ELSE IF Len(ss) = 1 THEN ss[1] ELSE ss[1] \o "," \o Commas(Tail(ss))
Printed(T) ==
  CASE T[1] = "dyn" -> "any"
    [] T[1] \in Prims -> T[1]
    [] T[1] \in Wraps -> T[1] \o "(" \o Printed(T[2]) \o ")"
    [] T[1] = "tuple" -> "tuple([" \o Commas([i \in 1..Len(T[2]) |-> Printed(T[2][i])]) \o "])"
    [] OTHER -> LET Has(n) == n \in DOMAIN T[2]
                    ns == SelectSeq(Alphabet, Has)
                    \* a first attribute called for would begin another construct
                    W(i) == IF i = 1 /\ ns[i] = "for" THEN "(for)" ELSE ns[i]
                IN "object({" \o Commas([i \in 1..Len(ns) |-> W(i) \o "=" \o Printed(T[2][ns[i]])]) \o "})"

RECURSIVE SameType(_, _)
SameType(a, b) ==
  a[1] = b[1] /\ CASE a[1] \in Wraps -> SameType(a[2], b[2])
                   [] a[1] = "tuple" -> Len(a[2]) = Len(b[2]) /\ \A i \in 1..Len(a[2]) : SameType(a[2][i], b[2][i])
                   [] a[1] = "object" -> DOMAIN a[2] = DOMAIN b[2] /\ \A n \in DOMAIN a[2] : SameType(a[2][n], b[2][n])
                   [] OTHER -> TRUE
=============================================================================
