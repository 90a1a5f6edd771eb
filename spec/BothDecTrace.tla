---------------------------- MODULE BothDecTrace ----------------------------
(* Validates decodings of one configuration in several forms.                *)
(* Record: [spec, items, got: <<[form, v, e]..>>, pinned]                     *)
EXTENDS Dec, Json, IOUtils, CSV
Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, done
vars == <<i, done>>
Emit(x) == CSVWrite("%1$s", <<ToJson(x)>>, IOEnv.OUT)
\* the items are used as the specification says: the same in both syntaxes
RECURSIVE Fits(_, _)
Fits(items, s) ==
  LET q == Same(s)
      as == {q[x][2] : x \in {y \in 1..Len(q) : q[y][1] = "attr"}}
      bs == SelectSeq(q, LAMBDA x : IsBlockSpec(x))
      types == {bs[x][2] : x \in 1..Len(bs)}
      used == {items[x][2] : x \in {y \in 1..Len(items) : items[y][1] = "a"}}
      made == {items[x][2] : x \in {y \in 1..Len(items) : items[y][1] = "b"}}
  IN /\ as \cap types = {} /\ used \cap (types \cup made) = {} /\ made \cap as = {}
     /\ \A x \in 1..Len(bs) : \A y \in 1..Len(bs) : bs[x][2] = bs[y][2] => HeadLabels(bs[x]) = HeadLabels(bs[y])
     /\ \A x \in 1..Len(items) : items[x][1] = "b" => \A y \in 1..Len(bs) : bs[y][2] = items[x][2] =>
          /\ Len(items[x][3]) = HeadLabels(bs[y])
          /\ IF bs[y][1] = "battrs" THEN \A z \in 1..Len(items[x][4]) : items[x][4][z][1] = "a" ELSE Fits(items[x][4], NestedOf(bs[y]))
SameForms(gs) == \A x \in 1..Len(gs) : gs[x].e = gs[1].e /\ Fix(gs[x].v) = Fix(gs[1].v)
Check(r) ==
  IF ~Fits(r.items, r.spec) THEN [st |-> "any", want |-> <<>>]
  ELSE LET d == DecodeBody(Open(<<"native", r.items>>), r.spec, "content", <<>>, FALSE) IN
       IF ~SameForms(r.got) THEN [st |-> "bad", want |-> d]
       ELSE IF d.any \/ r.pinned \/ (d.e = r.got[1].e /\ Fix(d.v) = Fix(r.got[1].v)) THEN [st |-> "ok", want |-> <<>>]
       ELSE [st |-> "bad", want |-> d]
Init == i \in 1..Len(Recs) /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED i
        /\ LET c == Check(Recs[i]) IN
           IF c.st = "ok" THEN TRUE
           ELSE IF c.st = "any" THEN Emit([i |-> i, st |-> "any"])
           ELSE Emit([i |-> i, k |-> 1, st |-> "bad", want |-> c.want])
=============================================================================
