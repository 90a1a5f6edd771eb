---------------------------- MODULE DecPlaceTrace ----------------------------
(* Validates recorded places of values and problems against DecPlace.      *)
(* Record: [spec, items, place, locs]                                      *)
EXTENDS DecPlace, Json, IOUtils, CSV

Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, done
vars == <<i, done>>
Emit(x) == CSVWrite("%1$s", <<ToJson(x)>>, IOEnv.OUT)

Judge(r) ==
  LET q == TLCEval(BodyProbs(r.spec, r.items, <<>>))
      ls == {r.locs[k] : k \in 1..Len(r.locs)}
  IN IF PMixed(r.spec) THEN [st |-> "any", want |-> <<>>]
     ELSE IF \E l \in ls : ~\E x \in q : PAnswers(l, x) THEN [st |-> "bad", want |-> [problems |-> q]]
     ELSE IF \E x \in q : x[3] /\ ~\E l \in ls : PAnswers(l, x) THEN [st |-> "bad", want |-> [problems |-> q]]
     ELSE IF q = {} /\ PExact(r.spec, r.items) /\ PPlace(r.spec, r.items, <<>>, 0) # r.place
          THEN [st |-> "bad", want |-> [place |-> PPlace(r.spec, r.items, <<>>, 0)]]
     ELSE [st |-> "ok", want |-> <<>>]

Init == i \in 1..Len(Recs) /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED i
        /\ LET c == Judge(Recs[i]) IN
           IF c.st = "ok" THEN TRUE
           ELSE IF c.st = "any" THEN Emit([i |-> i, st |-> "any"])
           ELSE Emit([i |-> i, k |-> 1, st |-> "bad", want |-> c.want])
=============================================================================
