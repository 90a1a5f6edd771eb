---------------------------- MODULE SuggestTrace ----------------------------
(* Validates recorded suggestions against Suggest.                         *)
(* Record: a case of Suggest with got: <<[k, n, how, name]>>, one for each *)
(* report about an unknown name.                                           *)
EXTENDS Suggest, Json, IOUtils, CSV

Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, done
vars == <<i, done>>
Emit(x) == CSVWrite("%1$s", <<ToJson(x)>>, IOEnv.OUT)

InBody(c) == c.syn \in {"native", "pack", "json"}
May(c, g) == IF InBody(c) THEN Says(c, [k |-> g.k, n |-> g.n]) ELSE SaysOf(c)
Reported(c) == {[k |-> c.got[j].k, n |-> c.got[j].n] : j \in 1..Len(c.got)}
Expected(c) == IF InBody(c) THEN Unknown(c) ELSE {[k |-> "a", n |-> c.given]}

Init == i \in 1..Len(Recs) /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED i
        /\ LET c == Recs[i] IN
           IF Reported(c) # Expected(c) THEN Emit([i |-> i, k |-> 1, st |-> "bad", want |-> Expected(c)])
           ELSE LET wrong == {j \in 1..Len(c.got) : [how |-> c.got[j].how, name |-> c.got[j].name] \notin May(c, c.got[j])} IN
                IF wrong = {} THEN TRUE
                ELSE LET j == CHOOSE x \in wrong : TRUE IN Emit([i |-> i, k |-> j, st |-> "bad", want |-> May(c, c.got[j])])
=============================================================================
