------------------------------- MODULE MCBody -------------------------------
(***************************************************************************)
(* Bounded-exhaustive histories of reads. A state is a body, the handles   *)
(* opened so far and the history; transitions are reads of any handle with *)
(* any schema of the pool. Complete histories are emitted for replay.      *)
(*   TwoStep: reading in two steps gives what one read would give.         *)
(*   Once: along a chain of remainders no item is delivered twice.         *)
(***************************************************************************)
EXTENDS Body, Json, IOUtils, CSV
CONSTANTS Kind, MaxItems, MaxOps

VARIABLES body, hs, hist
vars == <<body, hs, hist>>

N(i) == NumI(i)
------------------------------------------------------------- (* bodies *)
NativeItems == {<<"a", "a", N(1)>>, <<"a", "b", N(2)>>, <<"b", "b", <<>>, <<>>>>, <<"b", "b", <<"x">>, <<<<"a", "a", N(3)>>>>>>,
                <<"b", "c", <<"x">>, <<>>>>, <<"b", "c", <<"y">>, <<<<"b", "b", <<>>, <<>>>>>>>>}
Distinct(items) == \A i, j \in 1..Len(items) : (i # j /\ items[i][1] = "a" /\ items[j][1] = "a") => items[i][2] # items[j][2]
NativeBodies(n) == {<<"native", s>> : s \in {t \in UNION {[1..k -> NativeItems] : k \in 0..n} : Distinct(t)}}

Scalars == {<<"n", 5>>, <<"z">>, <<"s", "t">>}
Obj0 == <<"o", <<>>>>
ObjA == <<"o", <<<<"a", <<"n", 6>>>>>>>>
ObjX == <<"o", <<<<"x", ObjA>>>>>>
JVals == {<<"n", 5>>, <<"z">>, Obj0, ObjA, ObjX, <<"a", <<ObjA, ObjX>>>>, <<"a", <<ObjX, <<"z">>>>>>,
          <<"o", <<<<"x", <<"a", <<ObjA, Obj0>>>>>>, <<"y", <<"z">>>>>>>>, <<"o", <<<<"x", <<"n", 1>>>>, <<"x", ObjA>>>>>>}
JPropSet == {<<n, v>> : n \in {"a", "b"}, v \in JVals} \cup {<<"//", <<"n", 1>>>>, <<"c", ObjX>>}
JSeqs(n) == UNION {[1..k -> JPropSet] : k \in 0..n}
JsonBodies(n) == {<<"json", <<"o", s>>>> : s \in JSeqs(n)}
                 \cup {<<"json", <<"a", <<<<"o", <<p>>>>, <<"o", <<q>>>>>>>>>> : p, q \in {<<"a", ObjA>>, <<"b", ObjX>>, <<"b", ObjA>>, <<"//", <<"z">>>>}}
                 \cup {<<"json", <<"a", <<ObjA, <<"n", 3>>>>>>>>, <<"json", <<"a", <<>>>>>>}

MergePool == {<<"native", <<>>>>, <<"native", <<<<"a", "a", N(1)>>>>>>, <<"native", <<<<"a", "b", N(2)>>, <<"b", "c", <<"x">>, <<>>>>>>>>,
              <<"native", <<<<"b", "b", <<>>, <<<<"a", "a", N(7)>>>>>>, <<"b", "b", <<"x">>, <<>>>>>>>>,
              <<"json", <<"o", <<<<"a", <<"n", 8>>>>, <<"c", <<"o", <<<<"y", Obj0>>>>>>>>>>>>>>, <<"json", <<"o", <<<<"b", <<"a", <<ObjA, Obj0>>>>>>>>>>>>}
MergeBodies(n) == {<<"merge", s>> : s \in UNION {[1..k -> MergePool] : k \in 0..n}}
                  \cup {<<"merge", <<<<"merge", <<p, q>>>>, p>>>> : p, q \in MergePool}
Bodies == IF Kind = "native" THEN NativeBodies(MaxItems) ELSE IF Kind = "json" THEN JsonBodies(MaxItems) ELSE MergeBodies(MaxItems)

------------------------------------------------------------- (* schemas *)
SA(n, r) == [n |-> n, req |-> r]
SB(t, nl) == [t |-> t, nl |-> nl]
Sch(as, bs) == [attrs |-> as, blocks |-> bs]
Schemas == {Sch(<<>>, <<>>), Sch(<<SA("a", FALSE)>>, <<>>), Sch(<<SA("a", TRUE), SA("b", FALSE)>>, <<>>),
            Sch(<<>>, <<SB("b", 0)>>), Sch(<<>>, <<SB("b", 1), SB("c", 1)>>), Sch(<<SA("a", FALSE)>>, <<SB("c", 1), SB("b", 0)>>),
            Sch(<<SA("b", TRUE)>>, <<SB("c", 2)>>),
            Sch(<<SA("a", FALSE), SA("a", TRUE)>>, <<SB("b", 1)>>)}

Reads == ({"content", "partial"} \X Schemas) \cup {<<"just", Sch(<<>>, <<>>)>>}

Init == body \in Bodies /\ hs = <<Open(body)>> /\ hist = <<>>
Next ==
  /\ Len(hist) < MaxOps
  /\ \E h \in 1..Len(hs), rd \in Reads :
       LET r == Read(hs[h], rd[1], rd[2]) IN
       /\ hs' = hs \o Opened(r, rd[1])
       /\ hist' = Append(hist, [h |-> h, op |-> rd[1], schema |-> rd[2], want |-> Obs(r), amb |-> r.amb])
  /\ UNCHANGED body

EmitCase == Len(hist) = MaxOps => CSVWrite("%1$s", <<ToJson([body |-> body, ops |-> hist])>>, IOEnv.OUT)

------------------------------------------------------------- (* laws *)
Combine(s, t) == Sch(s.attrs \o t.attrs, s.blocks \o t.blocks)
Disjoint(s, t) == (AttrNames(s) \cup BlockTypes(s)) \cap (AttrNames(t) \cup BlockTypes(t)) = {}
Strip(bs) == [i \in 1..Len(bs) |-> <<bs[i].t, bs[i].labels>>]
OfTypes(bs, T) == SelectSeq(Strip(bs), LAMBDA b : b[1] \in T)
TwoStep ==
  Len(hist) = 0 => \A s, t \in Schemas : Disjoint(s, t) =>
    LET one == Read(hs[1], "content", Combine(s, t))
        p == Read(hs[1], "partial", s)
        c == Read(p.remain, "content", t)
    IN /\ one.attrs = p.attrs @@ c.attrs
       /\ OfTypes(one.blocks, BlockTypes(s)) = Strip(p.blocks)
       /\ OfTypes(one.blocks, BlockTypes(t)) = Strip(c.blocks)
       /\ one.err = (p.err \/ c.err)
Once ==
  Len(hist) = 0 => \A s, t \in Schemas :
    LET p == Read(hs[1], "partial", s)
        c == Read(p.remain, "partial", t)
        j == Read(p.remain, "just", t)
    IN /\ DOMAIN p.attrs \cap DOMAIN c.attrs = {}
       /\ DOMAIN p.attrs \cap DOMAIN j.attrs = {}
       /\ \A i \in 1..Len(c.blocks) : c.blocks[i].t \notin BlockTypes(s) \/ (Kind # "native" /\ p.err)
=============================================================================
