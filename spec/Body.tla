-------------------------------- MODULE Body --------------------------------
(***************************************************************************)
(* Reading bodies with schemas: the protocol of complete, partial and      *)
(* attributes-only reads, for the native syntax, for JSON and for merges.  *)
(*                                                                         *)
(* Body content:                                                           *)
(*   <<"native", items>>, item <<"a", name, value>> or                     *)
(*                              <<"b", type, labels, items>>               *)
(*   <<"json", v>>, v one of <<"o", <<<<name, v>>..>>>> <<"a", <<v..>>>>   *)
(*                            <<"s", str>> <<"n", int>> <<"t", bool>> <<"z">>*)
(*   <<"merge", <<body..>>>>                                               *)
(* A handle is what a reader holds: a body and what is already consumed:   *)
(*   <<"h", content, hiddenAttrs, hiddenBlocks>> or <<"m", handles>>       *)
(* Schema: [attrs |-> <<[n, req]..>>, blocks |-> <<[t, nl]..>>]            *)
(*   (nl = number of labels)                                               *)
(* A read gives [attrs |-> name -> value, blocks |-> <<[t, labels, h]..>>, *)
(*   err |-> BOOLEAN, amb |-> BOOLEAN (outcome not specified),             *)
(*   errs |-> number of errors, remain |-> handle]                         *)
(***************************************************************************)
EXTENDS Cty

RECURSIVE Open(_)
Open(b) == IF b[1] = "merge" THEN <<"m", FlatSeq([i \in 1..Len(b[2]) |-> LET h == Open(b[2][i]) IN IF h[1] = "m" THEN h[2] ELSE <<h>>])>>
           ELSE <<"h", b, {}, {}>>

AttrNames(s) == {s.attrs[i].n : i \in 1..Len(s.attrs)}
ReqNames(s) == {s.attrs[i].n : i \in {j \in 1..Len(s.attrs) : s.attrs[j].req}}
BlockTypes(s) == {s.blocks[i].t : i \in 1..Len(s.blocks)}
LabelCount(s, t) == LET i == CHOOSE j \in 1..Len(s.blocks) : s.blocks[j].t = t IN s.blocks[i].nl
B2I(b) == IF b THEN 1 ELSE 0

------------------------------------------------------------- (* native *)
NAttrs(items) == SelectSeq(items, LAMBDA it : it[1] = "a")
NBlocks(items) == SelectSeq(items, LAMBDA it : it[1] = "b")
NameSet(seq) == {seq[i][2] : i \in 1..Len(seq)}
ValOf(seq, n) == LET i == CHOOSE j \in 1..Len(seq) : seq[j][2] = n IN seq[i][3]

NativeRead(h, op, s) ==
  LET items == h[2][2]
      as == NAttrs(items)
      bs == NBlocks(items)
      liveA == NameSet(as) \ h[3]
      got == liveA \cap AttrNames(s)
      wanted == SelectSeq(bs, LAMBDA b : b[2] \notin h[4] /\ b[2] \in BlockTypes(s))
      good == SelectSeq(wanted, LAMBDA b : Len(b[3]) = LabelCount(s, b[2]))
      missing == Cardinality(ReqNames(s) \ got)
      badLabels == Len(wanted) - Len(good)
      hA == h[3] \cup got
      hB == h[4] \cup BlockTypes(s)
      left == IF op = "content" THEN Cardinality(NameSet(as) \ hA) + Len(SelectSeq(bs, LAMBDA b : b[2] \notin hB)) ELSE 0
  IN IF op = "just" THEN
       LET unread == B2I(\E i \in 1..Len(bs) : bs[i][2] \notin h[4]) IN
       [attrs |-> TLCEval([n \in liveA |-> ValOf(as, n)]), blocks |-> <<>>, err |-> unread > 0, errs |-> unread, amb |-> FALSE, remain |-> h]
     ELSE [attrs |-> TLCEval([n \in got |-> ValOf(as, n)]),
           blocks |-> TLCEval([i \in 1..Len(good) |-> [t |-> good[i][2], labels |-> good[i][3], h |-> Open(<<"native", good[i][4]>>)]]),
           err |-> missing + badLabels + left > 0, errs |-> missing + badLabels + left, amb |-> FALSE,
           remain |-> <<"h", h[2], hA, hB>>]

------------------------------------------------------------- (* JSON *)
RECURSIVE JToVal(_)
JToVal(v) ==
  CASE v[1] = "o" -> <<"obj", [k \in {v[2][i][1] : i \in 1..Len(v[2])} |->
                       LET i == CHOOSE j \in 1..Len(v[2]) : v[2][j][1] = k /\ \A l \in 1..(j - 1) : v[2][l][1] # k IN JToVal(v[2][i][2])]>>
    [] v[1] = "a" -> <<"tuple", [i \in 1..Len(v[2]) |-> JToVal(v[2][i])]>>
    [] v[1] = "s" -> Str(v[2])
    [] v[1] = "n" -> NumI(v[2])
    [] v[1] = "t" -> BoolV(v[2])
    [] v[1] = "z" -> DynNull

\* properties of an object or array of objects, in order; [ps, err]
JProps(v) ==
  CASE v[1] = "z" -> [ps |-> <<>>, err |-> FALSE]
    [] v[1] = "o" -> [ps |-> v[2], err |-> FALSE]
    [] v[1] = "a" -> [ps |-> FlatSeq([i \in 1..Len(v[2]) |-> IF v[2][i][1] = "o" THEN v[2][i][2] ELSE <<>>]),
                      err |-> \E i \in 1..Len(v[2]) : v[2][i][1] # "o"]
    [] OTHER -> [ps |-> <<>>, err |-> TRUE]

\* blocks defined by a property value; [bs, err, amb]
RECURSIVE JBlocks(_, _, _, _)
JBlocks(v, t, nl, labels) ==
  IF nl > 0 THEN
    LET p == JProps(v)
        subs == TLCEval([i \in 1..Len(p.ps) |-> JBlocks(p.ps[i][2], t, nl - 1, Append(labels, p.ps[i][1]))])
    IN [bs |-> FlatSeq([i \in 1..Len(subs) |-> subs[i].bs]),
        err |-> p.err \/ p.ps = <<>> \/ \E i \in 1..Len(subs) : subs[i].err,
        \* null where a label is wanted: not specified whether that is no block or a missing label
        amb |-> v[1] = "z" \/ \E i \in 1..Len(subs) : subs[i].amb]
  ELSE CASE v[1] = "z" -> [bs |-> <<>>, err |-> FALSE, amb |-> FALSE]
         [] v[1] = "o" -> [bs |-> <<[t |-> t, labels |-> labels, h |-> Open(<<"json", v>>)]>>, err |-> FALSE, amb |-> FALSE]
         [] v[1] = "a" -> [bs |-> [i \in 1..Len(v[2]) |-> [t |-> t, labels |-> labels, h |-> Open(<<"json", v[2][i]>>)]], err |-> FALSE, amb |-> FALSE]
         [] OTHER -> [bs |-> <<>>, err |-> TRUE, amb |-> FALSE]

RECURSIVE JDup(_)
JDup(v) ==
  CASE v[1] = "o" -> (\E i, j \in 1..Len(v[2]) : i < j /\ v[2][i][1] = v[2][j][1]) \/ \E i \in 1..Len(v[2]) : JDup(v[2][i][2])
    [] v[1] = "a" -> \E i \in 1..Len(v[2]) : JDup(v[2][i])
    [] OTHER -> FALSE
\* value of an argument; an object with repeated names does not evaluate
JArg(v) == IF JDup(v) THEN <<"evalerr">> ELSE JToVal(v)
FirstOf(ps, n) == LET i == CHOOSE j \in 1..Len(ps) : ps[j][1] = n /\ \A l \in 1..(j - 1) : ps[l][1] # n IN JArg(ps[i][2])
PropNames(ps) == {ps[i][1] : i \in 1..Len(ps)}
HasDup(ps, N) == \E i, j \in 1..Len(ps) : i < j /\ ps[i][1] = ps[j][1] /\ ps[i][1] \in N

JsonRead(h, op, s) ==
  LET v == h[2][2]
      p == JProps(v)
      live == SelectSeq(p.ps, LAMBDA x : x[1] \notin h[3])
      names == PropNames(live)
      got == names \cap AttrNames(s)
      bl == SelectSeq(live, LAMBDA x : x[1] \in BlockTypes(s) /\ x[1] \notin AttrNames(s))
      subs == TLCEval([i \in 1..Len(bl) |-> JBlocks(bl[i][2], bl[i][1], LabelCount(s, bl[i][1]), <<>>)])
      used == h[3] \cup (names \cap (AttrNames(s) \cup BlockTypes(s)))
      left == op = "content" /\ \E n \in names : n # "//" /\ n \notin used
  IN IF op = "just" THEN
       IF v[1] # "o" THEN [attrs |-> NoFn, blocks |-> <<>>, err |-> TRUE, errs |-> 1, amb |-> FALSE, remain |-> h]
       ELSE [attrs |-> TLCEval([n \in names \ {"//"} |-> FirstOf(live, n)]), blocks |-> <<>>,
             err |-> HasDup(live, names \ {"//"}), errs |-> -1, amb |-> FALSE, remain |-> h]
     ELSE LET e == p.err \/ HasDup(live, got) \/ (\E i \in 1..Len(subs) : subs[i].err) \/ (ReqNames(s) \ got) # {} \/ left IN
          [attrs |-> TLCEval([n \in got |-> FirstOf(live, n)]),
           blocks |-> FlatSeq([i \in 1..Len(subs) |-> subs[i].bs]),
           err |-> e, errs |-> IF e THEN -1 ELSE 0,
           amb |-> \E i \in 1..Len(subs) : subs[i].amb,
           remain |-> <<"h", h[2], used, {}>>]

------------------------------------------------------------- (* merge *)
Optional(s) == [attrs |-> [i \in 1..Len(s.attrs) |-> [n |-> s.attrs[i].n, req |-> FALSE]], blocks |-> s.blocks]

RECURSIVE Read(_, _, _), SumF(_, _)
SumF(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumF(f, n - 1)
\* rs: what each part gives for the schema with nothing required
MergeReads(rs, op, s) ==
       LET n == Len(rs)
           names == UNION {DOMAIN rs[i].attrs : i \in 1..n}
           defs(x) == {i \in 1..n : x \in DOMAIN rs[i].attrs}
           first(x) == CHOOSE i \in defs(x) : \A j \in defs(x) : i <= j
           dups == SumF([i \in 1..n |-> Cardinality({x \in DOMAIN rs[i].attrs : first(x) # i})], n)
           missing == IF op = "just" THEN 0 ELSE Cardinality(ReqNames(s) \ names)
           subErr == \E i \in 1..n : rs[i].err
           subErrs == IF \E i \in 1..n : rs[i].errs < 0 THEN -1 ELSE SumF([i \in 1..n |-> rs[i].errs], n)
       IN [attrs |-> TLCEval([x \in names |-> rs[first(x)].attrs[x]]),
           blocks |-> FlatSeq([i \in 1..n |-> rs[i].blocks]),
           err |-> subErr \/ dups > 0 \/ missing > 0,
           errs |-> IF subErrs < 0 THEN -1 ELSE subErrs + dups + missing,
           amb |-> \E i \in 1..n : rs[i].amb,
           remain |-> <<"m", [i \in 1..n |-> rs[i].remain]>>]
Read(h, op, s) ==
  IF h[1] = "h" THEN IF h[2][1] = "native" THEN NativeRead(h, op, s) ELSE JsonRead(h, op, s)
  ELSE MergeReads(TLCEval([i \in 1..Len(h[2]) |-> Read(h[2][i], op, Optional(s))]), op, s)

------------------------------------------------------------- (* observation *)
\* What an observer sees of a read. errs = -1: only whether there is an error.
Obs(r) == [attrs |-> r.attrs, blocks |-> [i \in 1..Len(r.blocks) |-> <<r.blocks[i].t, r.blocks[i].labels>>], err |-> r.err, errs |-> r.errs]
\* Handles the read opens: the remainder of a partial read, then the blocks.
Opened(r, op) == (IF op = "partial" THEN <<r.remain>> ELSE <<>>) \o [i \in 1..Len(r.blocks) |-> r.blocks[i].h]
=============================================================================
