------------------------------- MODULE MCWalk -------------------------------
(***************************************************************************)
(* Every tree of every kind of node over small operands, and every walk of *)
(* it the machine allows.                                                  *)
(*   Path: the open visits are a path from the root.                       *)
(*   Once: nothing is entered twice.                                       *)
(*   Whole: a walk that has ended entered everything.                      *)
(***************************************************************************)
EXTENDS Walk, Json, IOUtils, CSV
CONSTANTS Deep
Leaf == {Node("lit", <<>>), Node("ref", <<>>)}
None == <<>>
For(xs, ks, names) == {[k |-> "for", c |-> <<a, b, x, c>>, n |-> names, l |-> FALSE] : a \in xs, b \in ks, x \in xs, c \in ks}
Key(x, l) == [k |-> "key", c |-> <<x>>, n |-> <<>>, l |-> l]
Keys(xs) == {Key(Node("ref", <<>>), TRUE), Key(Node("lit", <<>>), FALSE)} \cup {Key(x, FALSE) : x \in xs \ Leaf}
Exprs(xs) ==
  {Node(k, <<x>>) : k \in {"rel", "un", "join", "wrap"}, x \in xs}
  \cup {Node(k, <<x, y>>) : k \in {"bin", "index"}, x \in xs, y \in xs}
  \cup {Node("cond", <<x, y, z>>) : x \in xs, y \in xs, z \in xs}
  \cup {Node(k, q) : k \in {"call", "tuple", "tmpl"}, q \in {<<>>} \cup {<<x>> : x \in xs} \cup {<<x, y>> : x \in xs, y \in xs}}
  \cup {Node("obj", q) : q \in {<<>>} \cup {<<k, x>> : k \in Keys(xs), x \in xs} \cup {<<k, x, j, y>> : k \in Keys(xs), x \in xs, j \in Keys(Leaf), y \in Leaf}}
  \cup {Node("splat", <<x, y>>) : x \in xs, y \in {Node("item", <<>>), Node("rel", <<Node("item", <<>>)>>), Node("index", <<Node("item", <<>>), Node("ref", <<>>)>>)}}
  \cup For(xs, {None, Node("ref", <<>>)}, <<"k", "v">>) \cup For(Leaf, {None, Node("lit", <<>>)}, <<"v">>)
Attrs(as) == Node("attrs", as)
Blocks(bs) == Node("blocks", bs)
Body(as, bs) == Node("body", <<Attrs(as), Blocks(bs)>>)
Attr(x) == Node("attr", <<x>>)
Block(b) == Node("block", <<b>>)
Some == {Node("lit", <<>>), Node("un", <<Node("ref", <<>>)>>), Node("tuple", <<Node("lit", <<>>), Node("ref", <<>>)>>)}
AttrSeqs == {<<>>} \cup {<<Attr(x)>> : x \in Some} \cup {<<Attr(x), Attr(y)>> : x \in Some, y \in Some}
Small == {Body(as, <<>>) : as \in {<<>>, <<Attr(Node("lit", <<>>))>>, <<Attr(Node("ref", <<>>)), Attr(Node("lit", <<>>))>>}}
Mid == Small \cup {Body(<<>>, <<Block(b)>>) : b \in Small}
Bodies == {Body(as, bs) : as \in AttrSeqs, bs \in {<<>>} \cup {<<Block(b)>> : b \in Mid} \cup {<<Block(b), Block(c)>> : b \in Small, c \in Small}}
One == Exprs({Node("ref", <<>>)})
Pick == {Node("un", <<Node("ref", <<>>)>>), Node("tuple", <<Node("lit", <<>>), Node("lit", <<>>)>>),
         [k |-> "for", c |-> <<Node("lit", <<>>), None, Node("ref", <<>>), None>>, n |-> <<"v">>, l |-> FALSE],
         Node("obj", <<Key(Node("ref", <<>>), TRUE), Node("lit", <<>>)>>)}
Trees == Leaf \cup Exprs(Leaf) \cup Exprs(Pick) \cup Bodies \cup (IF Deep THEN Exprs(One) ELSE {})

VARIABLES tree, st, seen, n
vars == <<tree, st, seen, n>>
Init == /\ tree \in Trees
        /\ LET r == Root(tree) IN st = <<Frame(r)>> /\ seen = {Id(r)} /\ n = 1
\* large trees are not walked in every order, the order being irrelevant below
Large == Cardinality(AllVisits(Root(tree))) > 8
Least(xs) == CHOOSE x \in xs : \A y \in xs : x.p[Len(x.p)] <= y.p[Len(y.p)]
Next == /\ st # <<>> /\ UNCHANGED tree
        /\ IF MayLeave(st) THEN st' = Left(st) /\ UNCHANGED <<seen, n>>
           ELSE \E x \in (IF Large THEN {Least(MayEnter(st))} ELSE MayEnter(st)) :
                  st' = Entered(st, x) /\ seen' = seen \cup {Id(x)} /\ n' = n + 1
Path == \A j \in 2..Len(st) : st[j].v \in st[j - 1].v.kids /\ st[j].v \notin st[j - 1].left
Once == n = Cardinality(seen)
Whole == st = <<>> => seen = {Id(v) : v \in AllVisits(Root(tree))}
EmitCase == n = 1 /\ Len(st) = 1 => CSVWrite("%1$s", <<ToJson([tree |-> tree, want |-> Root(tree)])>>, IOEnv.OUT)
=============================================================================
