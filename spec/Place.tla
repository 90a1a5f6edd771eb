------------------------------- MODULE Place -------------------------------
(***************************************************************************)
(* Where constructs are in the source. A configuration is written as a     *)
(* tree of pieces:                                                         *)
(*   <<"t", text>>            text                                         *)
(*   <<"f">>                  a place for blanks and comments, filled with *)
(*                            the next filler                              *)
(*   <<"n", kind, pieces>>    a construct: its range is what these write   *)
(* Parentheses belong to the construct around them, not to what they hold. *)
(* Expressions are those of Expr, with parentheses given as <<"paren", e>> *)
(* wherever they are needed; in templates only <<"s", text>>, <<"i", e>>   *)
(* and <<"tif", e, text, text>>; <<"here", parts>> is a heredoc.           *)
(* Items: <<"a", name, e>>  <<"b", type, labels, form, items>>, labels     *)
(*   <<quoted?, text>>, form "empty", "line" or "lines"; every item ends    *)
(*   its line except within a "line" block.                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

T(s) == <<"t", s>>
F == <<"f">>
N(kind, ps) == <<"n", kind, ps>>
RECURSIVE Ex(_), Args(_, _), Steps(_), Parts(_), Fields(_), Item(_), Items(_), Digits(_), FlatS(_)
FlatS(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o FlatS(Tail(ss))
Digits(n) == IF n < 10 THEN SubSeq("0123456789", n + 1, n + 1) ELSE Digits(n \div 10) \o Digits(n % 10)
Quoted(parts) == <<N("TemplateExpr", <<T("\"")>> \o Parts(parts) \o <<T("\"")>>)>>
Single(ps) == Len(ps) = 1 /\ ps[1][1] = "n"
\* a traversal goes on with another step, anything else is its source
Onward(x, step) ==
  LET ps == Ex(x) IN
  IF Single(ps) /\ ps[1][2] \in {"ScopeTraversalExpr", "RelativeTraversalExpr"} THEN <<N(ps[1][2], ps[1][3] \o step)>>
  ELSE <<N("RelativeTraversalExpr", ps \o step)>>
KeyText(v) == IF v[1] = "num" THEN Digits(v[2]) ELSE "\"" \o v[2] \o "\""
Args(es, i) == IF i > Len(es) THEN <<>> ELSE <<F>> \o Ex(es[i]) \o <<F>> \o (IF i < Len(es) THEN <<T(",")>> ELSE <<>>) \o Args(es, i + 1)
Steps(ns) == IF ns = <<>> THEN <<>> ELSE <<T("." \o ns[1])>> \o Steps(Tail(ns))
Part(p) == CASE p[1] = "s" -> <<N("LiteralValueExpr", <<T(p[2])>>)>>
             [] p[1] = "i" -> <<T("${"), F>> \o Ex(p[2]) \o <<F, T("}")>>
             [] p[1] = "tif" -> <<N("ConditionalExpr", <<T("%{if ")>> \o Ex(p[2]) \o <<F, T("}"), N("LiteralValueExpr", <<T(p[3])>>), T("%{else}"), N("LiteralValueExpr", <<T(p[4])>>), T("%{endif}")>>)>>
Parts(ps) == FlatS([i \in 1..Len(ps) |-> Part(ps[i])])
Field(f) ==
  (CASE f[1] = "id" -> <<N("ObjectConsKeyExpr", <<T(f[2])>>)>>
     [] f[2][1] = "lit" -> <<N("ObjectConsKeyExpr", Ex(f[2]))>>
     [] OTHER -> <<T("("), N("ObjectConsKeyExpr", Ex(f[2])), T(")")>>)
  \o <<F, T("="), F>> \o Ex(f[3])
Fields(fs) == FlatS([i \in 1..Len(fs) |-> <<F>> \o Field(fs[i]) \o <<F>> \o (IF i < Len(fs) THEN <<T(",")>> ELSE <<>>)])
Ex(e) ==
  CASE e[1] = "lit" -> (CASE e[2][1] = "str" -> Quoted(<<<<"s", e[2][2]>>>>)
                          [] e[2][1] = "num" -> <<N("LiteralValueExpr", <<T(Digits(e[2][2]))>>)>>
                          [] e[2][1] = "bool" -> <<N("LiteralValueExpr", <<T(IF e[2][2] THEN "true" ELSE "false")>>)>>
                          [] OTHER -> <<N("LiteralValueExpr", <<T("null")>>)>>)
    [] e[1] = "var" -> <<N("ScopeTraversalExpr", <<T(e[2])>>)>>
    [] e[1] = "paren" -> <<T("("), F>> \o Ex(e[2]) \o <<F, T(")")>>
    [] e[1] = "attr" -> Onward(e[2], <<F, T("."), F, T(e[3])>>)
    [] e[1] = "idx" -> IF e[3][1] = "lit" THEN Onward(e[2], <<T("["), F, T(KeyText(e[3][2])), F, T("]")>>)
                       ELSE <<N("IndexExpr", Ex(e[2]) \o <<T("["), F>> \o Ex(e[3]) \o <<F, T("]")>>)>>
    \* <<"splat", e, "attr" or "full", names>>
    [] e[1] = "splat" -> LET star == <<N("AnonSymbolExpr", <<T(IF e[3] = "full" THEN "[*]" ELSE ".*")>>)>> IN
                         <<N("SplatExpr", Ex(e[2]) \o (IF e[4] = <<>> THEN star ELSE <<N("RelativeTraversalExpr", star \o Steps(e[4]))>>))>>
    [] e[1] = "call" -> <<N("FunctionCallExpr", <<T(e[2]), T("(")>> \o Args(e[3], 1) \o (IF e[4] THEN <<T("..."), F>> ELSE <<>>) \o <<T(")")>>)>>
    [] e[1] = "cond" -> <<N("ConditionalExpr", Ex(e[2]) \o <<F, T("?"), F>> \o Ex(e[3]) \o <<F, T(":"), F>> \o Ex(e[4]))>>
    [] e[1] = "bin" -> <<N("BinaryOpExpr", Ex(e[3]) \o <<F, T(e[2]), F>> \o Ex(e[4]))>>
    [] e[1] = "un" -> <<N("UnaryOpExpr", <<T(e[2]), F>> \o Ex(e[3]))>>
    [] e[1] = "tuple" -> <<N("TupleConsExpr", <<T("[")>> \o Args(e[2], 1) \o <<T("]")>>)>>
    [] e[1] = "obj" -> <<N("ObjectConsExpr", <<T("{")>> \o Fields(e[2]) \o <<T("}")>>)>>
    [] e[1] = "tmpl" -> IF Len(e[2]) = 1 /\ e[2][1][1] = "i" THEN <<N("TemplateWrapExpr", <<T("\"")>> \o Parts(e[2]) \o <<T("\"")>>)>> ELSE Quoted(e[2])
    [] e[1] = "here" -> <<N("TemplateExpr", <<T("<<EOT\n")>> \o Parts(e[2]) \o <<N("LiteralValueExpr", <<T("\n")>>), T("EOT")>>)>>
    [] e[1] = "fort" -> <<N("ForExpr", <<T("["), F, T("for "), T(IF e[2] = "" THEN e[3] ELSE e[2] \o ", " \o e[3]), T(" in ")>> \o Ex(e[4]) \o <<F, T(":"), F>> \o Ex(e[5])
                                     \o (IF e[6] THEN <<T(" if ")>> \o Ex(e[7]) ELSE <<>>) \o <<F, T("]")>>)>>
    [] e[1] = "foro" -> <<N("ForExpr", <<T("{"), F, T("for "), T(IF e[2] = "" THEN e[3] ELSE e[2] \o ", " \o e[3]), T(" in ")>> \o Ex(e[4]) \o <<F, T(":"), F>> \o Ex(e[5]) \o <<F, T("=>"), F>> \o Ex(e[6])
                                     \o (IF e[7] THEN <<T("...")>> ELSE <<>>) \o <<F, T("}")>>)>>
Label(l) == <<T(" "), N("label", <<T(IF l[1] THEN "\"" \o l[2] \o "\"" ELSE l[2])>>)>>
Header(b) == FlatS(<<<<N("type", <<T(b[2])>>)>>, FlatS([i \in 1..Len(b[3]) |-> Label(b[3][i])])>>)
Item(it) ==
  IF it[1] = "a" THEN <<N("Attribute", <<N("name", <<T(it[2])>>), F, N("equals", <<T("=")>>), F>> \o Ex(it[3]))>>
  ELSE <<N("Block", <<N("def", Header(it)), F, N("open", <<T("{")>>)>>
            \o (CASE it[4] = "empty" -> <<F>> [] it[4] = "line" -> <<F>> \o Item(it[5][1]) \o <<F>> [] OTHER -> <<T("\n")>> \o Items(it[5]))
            \o <<N("close", <<T("}")>>)>>)>>
Items(its) == FlatS([i \in 1..Len(its) |-> <<F>> \o Item(its[i]) \o <<F, T("\n")>>])

------------------------------------------------------------- (* layout *)
\* [text, slot: how many fillers are used, nodes: <<kind, start, end>>]
RECURSIVE Lay(_, _, _, _)
\* nodes come in the order of their ends; depth first
Lay(ps, i, fill, st) ==
  IF i > Len(ps) THEN st
  ELSE LET p == ps[i] IN
    Lay(ps, i + 1, fill,
      CASE p[1] = "t" -> [st EXCEPT !.text = @ \o p[2]]
        [] p[1] = "f" -> [st EXCEPT !.text = @ \o (IF st.slot < Len(fill) THEN fill[st.slot + 1] ELSE ""), !.slot = @ + 1]
        [] OTHER -> LET in == Lay(p[3], 1, fill, st) IN
                    [in EXCEPT !.nodes = Append(@, <<p[2], Len(st.text), Len(in.text)>>)])
Placed(items, fill) == Lay(Items(items), 1, fill, [text |-> "", slot |-> 0, nodes |-> <<>>])

------------------------------------------------------------- (* lookups *)
Holds(n, p) == n[2] <= p /\ p < n[3]
\* blocks at a position, outermost first (they come in the order of ends)
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
BlocksAt(ns, p) == Rev(SelectSeq(ns, LAMBDA n : n[1] = "Block" /\ Holds(n, p)))
IsExpr(n) == n[1] \notin {"Block", "Attribute", "name", "equals", "type", "label", "open", "close", "def"}
\* arguments do not nest in each other
AttrsAt(ns, p) == SelectSeq(ns, LAMBDA n : n[1] = "Attribute" /\ Holds(n, p))
\* the outermost expression of the argument
ExprOf(ns, a) == LET es == SelectSeq(ns, LAMBDA n : IsExpr(n) /\ n[2] >= a[2] /\ n[3] <= a[3]) IN es[Len(es)]
At(ns, p) ==
  LET bs == BlocksAt(ns, p)
      as == AttrsAt(ns, p)
      es == IF as = <<>> THEN <<>> ELSE LET e == ExprOf(ns, as[1]) IN IF Holds(e, p) THEN <<<<e[2], e[3]>>>> ELSE <<>>
  IN [blocks |-> [i \in 1..Len(bs) |-> bs[i][2]], attr |-> [i \in 1..Len(as) |-> as[i][2]], expr |-> es]
\* what an editor shows for a position: the header of the outermost block
TopBlocks(items) == SelectSeq(items, LAMBDA it : it[1] = "b")
Tops(ns) == SelectSeq(ns, LAMBDA n : n[1] = "Block" /\ ~ \E j \in 1..Len(ns) : ns[j][1] = "Block" /\ ns[j][2] < n[2] /\ n[3] < ns[j][3])
RECURSIVE LabelsText(_)
LabelsText(ls) == IF ls = <<>> THEN "" ELSE " \"" \o ls[1][2] \o "\"" \o LabelsText(Tail(ls))
Context(items, tops, p) ==
  LET k == CHOOSE k \in 0..Len(tops) : IF k = 0 THEN \A j \in 1..Len(tops) : ~ Holds(tops[j], p) ELSE Holds(tops[k], p)
  IN IF k = 0 THEN "" ELSE LET b == TopBlocks(items)[k] IN b[2] \o LabelsText(b[3])
=============================================================================
