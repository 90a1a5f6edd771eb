------------------------------ MODULE BothTrace ------------------------------
(* Validates reads of one configuration in several forms.                    *)
(* Record: [items, ctx, ops: <<[h, op, schema, got: <<[form, attrs (name ->  *)
(* outcome), blocks, err]..>>]>>]                                            *)
EXTENDS Both, Json, IOUtils, CSV
Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, k, hs
vars == <<i, k, hs>>
Emit(x) == CSVWrite("%1$s", <<ToJson(x)>>, IOEnv.OUT)
SameOut(w, g) == w[1] = "any" \/ w = g
SameForms(gs) == \A x \in 1..Len(gs) : DOMAIN gs[x].attrs = DOMAIN gs[1].attrs /\ \A n \in DOMAIN gs[x].attrs : gs[x].attrs[n] = gs[1].attrs[n]
AgreesOne(w, g) == /\ w.err = g.err /\ SameBlocks(w.blocks, g.blocks, g.form)
                   /\ DOMAIN w.attrs = DOMAIN g.attrs /\ \A n \in DOMAIN w.attrs : SameOut(w.attrs[n], g.attrs[n])
Init == i \in 1..Len(Recs) /\ k = 0 /\ hs = <<Open(<<"native", Recs[i].items>>)>>
Next == /\ k < Len(Recs[i].ops)
        /\ LET o == Recs[i].ops[k + 1]
               r == Read(hs[o.h], o.op, o.schema)
               w == ViewOf(r, Recs[i].ctx)
           IN IF SameForms(o.got) /\ \A x \in 1..Len(o.got) : AgreesOne(w, o.got[x])
              THEN k' = k + 1 /\ hs' = hs \o Opened(r, o.op) /\ UNCHANGED i
              ELSE /\ Emit([i |-> i, k |-> k + 1, st |-> "bad", want |-> w])
                   /\ FALSE /\ UNCHANGED vars
=============================================================================
