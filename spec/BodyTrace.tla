----------------------------- MODULE BodyTrace -----------------------------
(* Validates recorded histories of reads against Body.                      *)
(* Record: [body, ops: <<[h, op, schema, got: [attrs, blocks, err, errs]]>>]*)
(* Each read may open new handles, numbered in order of appearance.         *)
EXTENDS Body, Json, IOUtils, CSV
CONSTANT CountErrors

Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, k, hs
vars == <<i, k, hs>>

Emit(x) == CSVWrite("%1$s", <<ToJson(x)>>, IOEnv.OUT)
R(n, hh) == LET o == Recs[i].ops[n] IN Read(hh[o.h], o.op, o.schema)
\* a record whose attrs is the empty JSON object is read as an empty sequence
SameFn(f, g) == IF DOMAIN f = {} THEN DOMAIN g = {} ELSE f = g
Agrees(o, r) ==
  LET x == Obs(r) IN
  /\ SameFn(x.attrs, o.got.attrs)
  /\ x.blocks = o.got.blocks
  /\ r.amb \/ (x.err = o.got.err)
  /\ (CountErrors /\ x.errs >= 0 /\ ~r.amb) => x.errs = o.got.errs

Init == i \in 1..Len(Recs) /\ k = 0 /\ hs = <<Open(Recs[i].body)>>
Next == /\ k < Len(Recs[i].ops)
        /\ LET o == Recs[i].ops[k + 1]
               r == R(k + 1, hs)
           IN IF Agrees(o, r) THEN k' = k + 1 /\ hs' = hs \o Opened(r, o.op) /\ UNCHANGED i
              ELSE /\ Emit([i |-> i, k |-> k + 1, st |-> "bad", want |-> Obs(r)])
                   /\ FALSE /\ UNCHANGED vars
=============================================================================
