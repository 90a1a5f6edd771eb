------------------------------- MODULE MCBoth -------------------------------
(***************************************************************************)
(* Every sequence of items of a pool, read with every history of reads; to *)
(* be replayed in every form.                                              *)
(*   Law: the translation read by the rules of JSON gives the view of the   *)
(*   original read by the rules of the native syntax, also in parts.        *)
(***************************************************************************)
EXTENDS Both, Json, IOUtils, CSV
CONSTANTS MaxItems, MaxOps
A_(n, e) == <<"a", n, e>>
B_(t, ls, items) == <<"b", t, ls, items>>
L(v) == <<"lit", v>>
V(n) == <<"var", n>>
Scope == <<[s |-> Str("x"), n |-> NumI(2), u |-> <<"unk", String>>, l |-> <<"list", String, <<Str("p"), Str("q")>>>>, o |-> <<"obj", [k |-> Str("v")]>>]>>
Exprs == {L(NumI(1)), L(Str("t")), L(DynNull), V("s"), V("zz"), V("u"), <<"bin", "+", V("n"), L(NumI(1))>>, <<"attr", V("o"), "k">>,
          <<"tuple", <<V("n"), L(Str("z")), L(DynNull)>>>>, <<"obj", <<<<"id", "k", V("s")>>>>>>, <<"tmpl", <<<<"s", "a-">>, <<"i", V("s")>>>>>>,
          <<"cond", <<"bin", "==", V("n"), L(NumI(2))>>, V("s"), L(Str("no"))>>, <<"splat", V("l"), "full", <<"item">>>>}
Inner == {<<>>, <<A_("a", L(NumI(3)))>>, <<A_("a", V("s")), B_("b", <<>>, <<>>)>>}
Items == {A_("a", e) : e \in Exprs} \cup {A_("e", L(NumI(4)))}
         \cup {B_("b", <<>>, i) : i \in Inner} \cup {B_("c", <<l>>, i) : l \in {"x", "y"}, i \in Inner} \cup {B_("d", <<"x", l>>, <<A_("a", L(NumI(5)))>>) : l \in {"x", "a"}}
Distinct(items) == \A i, j \in 1..Len(items) : (i # j /\ items[i][1] = "a" /\ items[j][1] = "a") => items[i][2] # items[j][2]
Seqs(n, S) == {s \in UNION {[1..k -> S] : k \in 0..n} : Distinct(s)}
\* longer ones without the variety of expressions
Short == {A_("a", L(NumI(1))), A_("e", V("s")), B_("b", <<>>, <<A_("a", V("s"))>>), B_("c", <<"x">>, <<A_("a", L(NumI(3)))>>), B_("c", <<"y">>, <<>>), B_("d", <<"x", "y">>, <<>>)}
Sch(as, bs) == [attrs |-> as, blocks |-> bs]
SA(n, r) == [n |-> n, req |-> r]
SB(t) == [t |-> t, nl |-> CASE t = "b" -> 0 [] t = "c" -> 1 [] OTHER -> 2]
Schemas == {Sch(<<>>, <<>>), Sch(<<SA("a", FALSE)>>, <<SB("b")>>), Sch(<<SA("a", TRUE), SA("e", FALSE)>>, <<SB("b"), SB("c"), SB("d")>>), Sch(<<>>, <<SB("c")>>), Sch(<<SA("e", TRUE)>>, <<SB("d"), SB("c")>>)}
Reads == ({"content", "partial"} \X Schemas) \cup {<<"just", Sch(<<>>, <<>>)>>}

VARIABLES items, hs, hist
vars == <<items, hs, hist>>
Init == items \in Seqs(MaxItems, Items) \cup Seqs(MaxItems + 1, Short) /\ hs = <<Open(<<"native", items>>)>> /\ hist = <<>>
\* arguments only: where there are no blocks
Fits(h, op) == op # "just" \/ NBlocks(h[2][2]) = <<>>
Next == /\ Len(hist) < MaxOps
        /\ \E h \in 1..Len(hs), rd \in Reads :
             /\ Fits(hs[h], rd[1])
             /\ LET r == Read(hs[h], rd[1], rd[2]) IN
                /\ hs' = hs \o Opened(r, rd[1])
                /\ hist' = Append(hist, [h |-> h, op |-> rd[1], schema |-> rd[2], want |-> ViewOf(r, Scope)])
        /\ UNCHANGED items
EmitCase == Len(hist) = MaxOps => CSVWrite("%1$s", <<ToJson([items |-> items, ctx |-> Scope, ops |-> hist])>>, IOEnv.OUT)

------------------------------------------------------------- (* law *)
RECURSIVE Plain(_)
Plain(its) == \A i \in 1..Len(its) : IF its[i][1] = "a" THEN its[i][3][1] = "lit" ELSE Plain(its[i][4])
View(r) == [attrs |-> r.attrs, blocks |-> [i \in 1..Len(r.blocks) |-> <<r.blocks[i].t, r.blocks[i].labels>>], err |-> r.err]
NView(r) == [View(r) EXCEPT !.attrs = [n \in DOMAIN r.attrs |-> r.attrs[n][2]]]
SameView(a, b, f) == a.err = b.err /\ (IF DOMAIN a.attrs = {} THEN DOMAIN b.attrs = {} ELSE a.attrs = b.attrs) /\ SameBlocks(a.blocks, b.blocks, f)
\* every block, found by type, labels and number, also has the same view
RECURSIVE Alike(_, _, _, _)
Nth(bs, i) == Cardinality({j \in 1..i : bs[j].t = bs[i].t /\ bs[j].labels = bs[i].labels})
Alike(h, g, f, d) ==
  \A rd \in Reads : (Fits(h, rd[1]) /\ (f # "array" \/ rd[1] # "just" \/ g[2][2][1] = "o")) =>
    LET r == Read(h, rd[1], rd[2]) q == Read(g, rd[1], rd[2]) IN
    /\ SameView(NView(r), View(q), f)
    /\ d > 0 => /\ \A i \in 1..Len(r.blocks) : \E j \in 1..Len(q.blocks) :
                     /\ q.blocks[j].t = r.blocks[i].t /\ q.blocks[j].labels = r.blocks[i].labels /\ Nth(q.blocks, j) = Nth(r.blocks, i)
                     /\ Alike(r.blocks[i].h, q.blocks[j].h, f, d - 1)
                /\ rd[1] = "partial" => Alike(r.remain, q.remain, f, d - 1)
Law == (hist = <<>> /\ Plain(items)) => \A f \in Forms : Alike(hs[1], Open(Translated(items, f)), f, 1)
=============================================================================
