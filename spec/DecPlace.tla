------------------------------ MODULE DecPlace ------------------------------
(***************************************************************************)
(* Where the values and the problems of a decoding are.                    *)
(*                                                                         *)
(* A path names an item of a body by its position, item by item: <<2, 1>>  *)
(* is the first item in the second item.  Places:                          *)
(*   <<"expr", path>>   the value of an argument                           *)
(*   <<"label", path, i>>  a label of a block                              *)
(*   <<"def", path>>    the header of a block                              *)
(*   <<"body", path>>   where a body reports what it lacks                 *)
(*   <<"off">>          elsewhere: in the specification                    *)
(* Problems: <<"item", path, sure>>: something in that item is wrong;      *)
(*   <<"body", path, sure>>: something is missing there;                   *)
(*   <<"off", <<>>, FALSE>>.  A sure problem must be reported.             *)
(***************************************************************************)
EXTENDS Dec

\* the positions of the blocks of a type that have the wanted number of labels
PIdx(its, t, nl) == SelectSeq(TLCEval([i \in 1..Len(its) |-> i]), LAMBDA i : its[i][1] = "b" /\ its[i][2] = t /\ Len(its[i][3]) = nl)
PAttr(its, n) == SelectSeq(TLCEval([i \in 1..Len(its) |-> i]), LAMBDA i : its[i][1] = "a" /\ its[i][2] = n)
POf(s, its) == PIdx(its, s[2], HeadLabels(s))

\* the place a value comes from; off labels of the enclosing block are keys
RECURSIVE PPlace(_, _, _, _)
PPlace(s, its, p, off) ==
  CASE s[1] = "attr" -> LET x == PAttr(its, s[2]) IN IF x = <<>> THEN <<"body", p>> ELSE <<"expr", p \o <<x[1]>>>>
    [] s[1] = "label" -> <<"label", p, off + s[2] + 1>>
    [] s[1] \in {"default", "xform"} -> PPlace(s[2], its, p, off)
    [] s[1] \in {"object", "tuple"} -> <<"body", p>>
    [] s[1] \in {"lit", "expr"} -> <<"off">>
    [] OTHER ->
         LET x == POf(s, its) IN
         IF x = <<>> THEN <<"body", p>>
         ELSE IF s[1] = "battrs" THEN <<"def", p \o <<x[1]>>>>
         ELSE PPlace(NestedOf(s), its[x[1]][4], p \o <<x[1]>>, IF s[1] \in {"bmap", "bobj"} THEN s[3] ELSE 0)

\* specifications that name one item
RECURSIVE PExact(_, _)
PExact(s, its) ==
  CASE s[1] \in {"attr", "label", "battrs"} -> TRUE
    [] s[1] = "xform" -> PExact(s[2], its)
    [] s[1] = "default" -> PExact(s[2], its) /\ PPlace(s[2], its, <<>>, 0)[1] # "body"
    [] IsBlockSpec(s) -> LET x == POf(s, its) IN x = <<>> \/ PExact(NestedOf(s), its[x[1]][4])
    [] OTHER -> FALSE

PUnsure(S) == {<<x[1], x[2], FALSE>> : x \in S}
PAsProblem(pl) == IF pl[1] = "off" THEN <<"off", <<>>, FALSE>> ELSE IF pl[1] = "body" THEN <<"body", pl[2], FALSE>> ELSE <<"item", pl[2], FALSE>>
PValue(v, t, p) ==
  LET x == Resolve(v)
      c == Convert(x.v, t)
  IN IF x.e \/ c[1] = "err" THEN {<<"item", p, ~x.any>>} ELSE IF x.any \/ c[1] = "any" THEN {<<"item", p, FALSE>>} ELSE {}
POdd(s) == LET q == Same(s) IN HasDyn(Implied(s)) \/ \E i \in 1..Len(q) : q[i][1] = "default" \/ (IsBlockSpec(q[i]) /\ q[i][1] # "battrs")

RECURSIVE SpecProbs(_, _, _), BodyProbs(_, _, _)
SpecProbs(s, its, p) ==
  CASE s[1] = "object" -> UNION {SpecProbs(s[2][k], its, p) : k \in DOMAIN s[2]}
    [] s[1] = "tuple" -> UNION {SpecProbs(s[2][i], its, p) : i \in 1..Len(s[2])}
    [] s[1] = "attr" -> LET x == PAttr(its, s[2]) IN IF x = <<>> THEN {} ELSE PValue(its[x[1]][3], s[3], p \o <<x[1]>>)
    [] s[1] = "expr" -> LET x == Resolve(s[2]) IN IF x.e \/ x.any THEN {<<"off", <<>>, FALSE>>} ELSE {}
    [] s[1] \in {"lit", "label"} -> {}
    [] s[1] = "default" -> SpecProbs(s[2], its, p) \cup PUnsure(SpecProbs(s[3], its, p))
    [] s[1] = "xform" -> SpecProbs(s[2], its, p) \cup (IF s[3] = "fail" THEN {PAsProblem(PPlace(s[2], its, p, 0))} ELSE {})
    [] OTHER ->
         LET x == TLCEval(POf(s, its))
             n == Len(x)
             at(i) == p \o <<x[i]>>
             inner(i) == BodyProbs(NestedOf(s), its[x[i]][4], at(i))
             stray(i) == PPlace(NestedOf(s), its[x[i]][4], at(i), 0)[1] = "off"
         IN CASE s[1] = "block" -> (IF n = 0 THEN IF s[4] THEN {<<"body", p, TRUE>>} ELSE {} ELSE inner(1))
                                   \cup (IF n > 1 THEN {<<"item", at(2), TRUE>>} ELSE {})
              [] s[1] = "battrs" ->
                   IF n = 0 THEN IF s[4] THEN {<<"body", p, TRUE>>} ELSE {}
                   ELSE LET b == its[x[1]][4] IN
                        (IF n > 1 THEN {<<"item", at(2), TRUE>>} ELSE {})
                        \cup UNION {IF b[j][1] = "a" THEN PValue(b[j][3], s[3], at(1) \o <<j>>) ELSE {<<"item", at(1) \o <<j>>, FALSE>>} : j \in 1..Len(b)}
                        \cup (IF HasDyn(s[3]) /\ Len(b) > 1 THEN {<<"item", at(1), FALSE>>} ELSE {})
              [] s[1] \in {"blist", "btuple", "bset"} ->
                   (IF n < s[4] THEN {<<"body", p, TRUE>>} ELSE {})
                   \cup (IF s[5] > 0 /\ n > s[5] /\ n >= s[4] THEN {IF stray(s[5] + 1) THEN <<"off", <<>>, FALSE>> ELSE <<"item", at(s[5] + 1), TRUE>>} ELSE {})
                   \cup UNION {inner(i) : i \in 1..n}
                   \cup (IF s[1] # "btuple" /\ n > 1 /\ POdd(s[3]) THEN {IF stray(i) THEN <<"off", <<>>, FALSE>> ELSE <<"item", at(i), FALSE>> : i \in 1..n} ELSE {})
              [] OTHER ->
                   LET key(i) == SubSeq(its[x[i]][3], 1, s[3]) IN
                   UNION {inner(i) : i \in 1..n}
                   \cup {<<"item", at(j), TRUE>> : j \in {k \in 1..n : \E i \in 1..k-1 : key(i) = key(k)}}

BodyProbs(s, its, p) ==
  LET sch == TLCEval(Schema(s))
      an == {sch.attrs[i].n : i \in 1..Len(sch.attrs)}
      bad(i) == IF its[i][1] = "a" THEN its[i][2] \notin an
                ELSE ~\E j \in 1..Len(sch.blocks) : sch.blocks[j].t = its[i][2] /\ sch.blocks[j].nl = Len(its[i][3])
      lack == \E j \in 1..Len(sch.attrs) : sch.attrs[j].req /\ PAttr(its, sch.attrs[j].n) = <<>>
  IN {<<"item", p \o <<i>>, TRUE>> : i \in {j \in 1..Len(its) : bad(j)}}
     \cup (IF lack THEN {<<"body", p, TRUE>>} ELSE {})
     \cup SpecProbs(s, its, p)

\* block types that are asked for with different numbers of labels are left open
RECURSIVE PMixed(_)
PMixed(s) ==
  LET q == TLCEval(Same(s))
      b == SelectSeq(q, LAMBDA x : IsBlockSpec(x))
  IN \/ \E i, j \in 1..Len(b) : b[i][2] = b[j][2] /\ HeadLabels(b[i]) # HeadLabels(b[j])
     \/ \E i \in 1..Len(b) : b[i][1] # "battrs" /\ PMixed(NestedOf(b[i]))

PPrefix(q, p) == Len(q) <= Len(p) /\ SubSeq(p, 1, Len(q)) = q
\* a reported place answers a problem
PAnswers(l, q) == IF q[1] = "off" THEN l[1] = "off"
                  ELSE IF q[1] = "body" THEN l = <<"body", q[2]>>
                  ELSE l[1] # "off" /\ PPrefix(q[2], l[2])
=============================================================================
