---------------------------- MODULE IncludeTrace ----------------------------
(* Validates recorded histories of reads of transformed bodies.             *)
(* Record: [w, body, ops: <<[h, op, schema, got [attrs, blocks, err], n]>>] *)
EXTENDS Include, Json, IOUtils, CSV
Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, k, hs, seen
vars == <<i, k, hs, seen>>
Emit(x) == CSVWrite("%1$s", <<ToJson(x)>>, IOEnv.OUT)
SameFn(f, g) == IF DOMAIN f = {} THEN DOMAIN g = {} ELSE f = g
W == Recs[i].w
Init == i \in 1..Len(Recs) /\ k = 0 /\ LET x == Start(Recs[i].w, Recs[i].body, "main.hcl") IN hs = <<x.h>> /\ seen = x.seen
Agrees(o, want) ==
  CASE want[1] = "any" -> TRUE
    [] want[1] = "fails" -> o.got.err
    [] OTHER -> SameFn(want[2].attrs, o.got.attrs) /\ want[2].blocks = o.got.blocks /\ want[2].err = o.got.err /\ want[2].warn <= o.got.warn
\* handles opened by an unspecified read are unspecified
Next == /\ k < Len(Recs[i].ops)
        /\ LET o == Recs[i].ops[k + 1]
               r == Step(W, hs[o.h], o.op, o.schema, seen)
           IN IF Agrees(o, r.want)
              THEN /\ k' = k + 1
                   /\ hs' = hs \o (IF r.want[1] = "ok" THEN r.opened ELSE [x \in 1..o.n |-> <<"x">>])
                   /\ seen' = r.seen /\ UNCHANGED i
              ELSE /\ Emit([i |-> i, k |-> k + 1, st |-> "bad", want |-> r.want])
                   /\ FALSE /\ UNCHANGED vars
=============================================================================
