---------------------------- MODULE DynReadTrace ----------------------------
(* Validates recorded histories of reads of expanded bodies against Dyn;   *)
(* as BodyTrace, each argument being evaluated where it was read.          *)
EXTENDS Dyn, Json, IOUtils, CSV

Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, k, hs
vars == <<i, k, hs>>

Emit(x) == CSVWrite("%1$s", <<ToJson(x)>>, IOEnv.OUT)
SameFn(f, g) == DOMAIN f = DOMAIN g /\ \A x \in DOMAIN f : Fix(f[x]) = Fix(g[x])
\* an argument that cannot be evaluated compares as such
Agrees(o, r) ==
  LET x == DObs(r) IN
  /\ IF DOMAIN x.attrs = {} THEN DOMAIN o.got.attrs = {} ELSE SameFn(x.attrs, o.got.attrs)
  /\ x.blocks = o.got.blocks
  /\ r.amb \/ x.err = o.got.err

Init == i \in 1..Len(Recs) /\ k = 0 /\ hs = <<DOpen(Recs[i].body)>>
Next == /\ k < Len(Recs[i].ops)
        /\ LET o == Recs[i].ops[k + 1]
               r == TLCEval(DRead(hs[o.h], o.op, o.schema))
           IN IF hs = <<>> THEN k' = k + 1 /\ UNCHANGED <<i, hs>>
              ELSE IF o.op = "just" /\ r.amb THEN k' = k + 1 /\ UNCHANGED <<i, hs>>
              ELSE IF Agrees(o, r) THEN k' = k + 1 /\ hs' = hs \o Opened(r, o.op) /\ UNCHANGED i
              ELSE IF r.amb THEN Emit([i |-> i, st |-> "any"]) /\ k' = k + 1 /\ hs' = <<>> /\ UNCHANGED i
              ELSE /\ Emit([i |-> i, k |-> k + 1, st |-> "bad", want |-> DObs(r)])
                   /\ FALSE /\ UNCHANGED vars
=============================================================================
