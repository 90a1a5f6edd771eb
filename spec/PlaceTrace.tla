------------------------------ MODULE PlaceTrace ------------------------------
(* Validates recorded ranges and lookups.                                    *)
(* Record: [items, fill, text, got: [nodes: <<<<kind, start, end>>..>>,      *)
(*   ats: <<<<pos, [blocks, attr, expr, ctx]>>..>>]]                          *)
EXTENDS Place, Json, IOUtils, CSV
Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, done
vars == <<i, done>>
Emit(x) == CSVWrite("%1$s", <<ToJson(x)>>, IOEnv.OUT)
Times(s, x) == Cardinality({j \in 1..Len(s) : s[j] = x})
SameBag(s, t) == Len(s) = Len(t) /\ \A j \in 1..Len(s) : Times(s, s[j]) = Times(t, s[j])
Agree(ns, items, g) ==
  LET tops == TLCEval(Tops(ns)) IN
  {p \in {<<g[j][1], At(ns, g[j][1]), Context(items, tops, g[j][1]), g[j][2]>> : j \in 1..Len(g)} :
     ~ (DOMAIN p[4] = {"blocks", "attr", "expr", "ctx"} /\ p[4].blocks = p[2].blocks /\ p[4].attr = p[2].attr /\ p[4].expr = p[2].expr /\ p[4].ctx = p[3])}
Init == i \in 1..Len(Recs) /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED i
        /\ LET r == Recs[i]
               pl == TLCEval(Placed(r.items, r.fill))
           IN IF pl.text # r.text THEN Emit([i |-> i, k |-> 1, st |-> "bad", want |-> pl.text])
              ELSE IF ~ SameBag(pl.nodes, r.got.nodes) THEN Emit([i |-> i, k |-> 1, st |-> "bad", want |-> [missing |-> {pl.nodes[j] : j \in {j \in 1..Len(pl.nodes) : Times(r.got.nodes, pl.nodes[j]) # Times(pl.nodes, pl.nodes[j])}}]])
              ELSE LET bad == Agree(pl.nodes, r.items, r.got.ats) IN
                   bad # {} => Emit([i |-> i, k |-> 1, st |-> "bad", want |-> CHOOSE b \in bad : TRUE])
=============================================================================
