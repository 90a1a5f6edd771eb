-------------------------------- MODULE Refs --------------------------------
(***************************************************************************)
(* Free references of an expression: the references to names of the root   *)
(* scope, each with its full static path <<root, steps>>; a step is        *)
(* <<"a", name>> or <<"i", key>>.                                          *)
(***************************************************************************)
EXTENDS Expr

RECURSIVE Refs(_, _), Path(_), Fixed(_), RefsOf(_, _), PartRefs(_, _)

\* the constant value of a key written as a literal, <<>> if it is not one
Fixed(k) ==
  CASE k[1] = "lit" -> IF k[2][1] = "num" THEN (IF k[2][2] < 0 THEN <<>> ELSE <<k[2]>>)
                       ELSE IF k[2][1] = "null" THEN <<DynNull>> ELSE <<k[2]>>
    [] k[1] = "paren" -> Fixed(k[2])
    [] k[1] = "tmpl" -> IF \A j \in 1..Len(k[2]) : k[2][j][1] = "s" THEN <<Str(ConcatStrs([j \in 1..Len(k[2]) |-> k[2][j][2]]))>> ELSE <<>>
    [] OTHER -> <<>>

Path(e) ==
  CASE e[1] = "var" -> <<e[2], <<>>>>
    [] e[1] = "paren" -> Path(e[2])
    [] e[1] = "attr" -> LET p == Path(e[2]) IN IF p = <<>> THEN <<>> ELSE <<p[1], Append(p[2], <<"a", e[3]>>)>>
    [] e[1] = "idx" -> LET p == Path(e[2]) k == Fixed(e[3]) IN
                       IF p = <<>> \/ k = <<>> THEN <<>> ELSE <<p[1], Append(p[2], <<"i", k[1]>>)>>
    [] OTHER -> <<>>

RefsOf(es, B) == UNION {Refs(es[j], B) : j \in 1..Len(es)}
Opt(has, e, B) == IF has THEN Refs(e, B) ELSE {}
PartRefs(ps, B) == UNION {
  LET p == ps[j] IN
  CASE p[1] = "s" -> {}
    [] p[1] = "i" -> Refs(p[2], B)
    [] p[1] = "tif" -> Refs(p[2], B) \cup PartRefs(p[3], B) \cup PartRefs(p[4], B)
    [] p[1] = "tfor" -> Refs(p[4], B) \cup PartRefs(p[5], B \cup {p[2], p[3]})
  : j \in 1..Len(ps)}

Refs(e, B) ==
  LET p == Path(e) IN
  IF p # <<>> THEN (IF p[1] \in B THEN {} ELSE {p})
  ELSE CASE e[1] \in {"lit", "item"} -> {}
         [] e[1] \in {"paren", "wrap", "attr"} -> Refs(e[2], B)
         [] e[1] = "idx" -> Refs(e[2], B) \cup (IF Fixed(e[3]) # <<>> THEN {} ELSE Refs(e[3], B))
         [] e[1] = "splat" -> Refs(e[2], B) \cup Refs(e[4], B)
         [] e[1] = "call" -> RefsOf(e[3], B)
         [] e[1] = "cond" -> Refs(e[2], B) \cup Refs(e[3], B) \cup Refs(e[4], B)
         [] e[1] = "bin" -> Refs(e[3], B) \cup Refs(e[4], B)
         [] e[1] = "un" -> Refs(e[3], B)
         [] e[1] = "tuple" -> RefsOf(e[2], B)
         [] e[1] = "obj" -> UNION {LET it == e[2][j] IN Refs(it[3], B) \cup Opt(it[1] = "e", it[2], B) : j \in 1..Len(e[2])}
         [] e[1] = "fort" -> LET B2 == B \cup {e[2], e[3]} IN Refs(e[4], B) \cup Refs(e[5], B2) \cup Opt(e[6], e[7], B2)
         [] e[1] = "foro" -> LET B2 == B \cup {e[2], e[3]} IN
                             Refs(e[4], B) \cup Refs(e[5], B2) \cup Refs(e[6], B2) \cup Opt(e[7], e[8], B2)
         [] e[1] \in {"tmpl", "parts"} -> PartRefs(e[2], B)

Roots(S) == {r[1] : r \in S}
Restrict(ctx, N) == [j \in 1..Len(ctx) |-> [k \in DOMAIN ctx[j] \cap N |-> ctx[j][k]]]
=============================================================================
