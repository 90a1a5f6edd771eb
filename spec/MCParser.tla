------------------------------ MODULE MCParser ------------------------------
(***************************************************************************)
(* Every history of N calls over two names and changes of the files.       *)
(*   Once: a name keeps the file it got first unless another is added.     *)
(*   Quiet: diagnostics are reported only by the call that parses.         *)
(***************************************************************************)
EXTENDS Parser, Json, IOUtils, CSV
CONSTANT N
Ops == {<<"hcl", n, c>> : n \in {"x", "y"}, c \in {"n2", "nbad"}} \cup {<<"json", n, c>> : n \in {"x", "y"}, c \in {"j1", "jbad", "empty"}}
       \cup {<<k, n, "">> : k \in {"hclfile", "jsonfile"}, n \in {"x", "y"}}
       \cup {<<"add", "x", "n2">>, <<"write", "y", "n1">>, <<"write", "x", "jbad">>, <<"write", "x", "none">>, <<"write", "y", "dir">>, <<"write", "y", "empty">>}
VARIABLES hist, st, seen
vars == <<hist, st, seen>>
Init == hist = <<>> /\ seen = <<>> /\ st = [fs |-> [x |-> "n1", y |-> "none"], cache |-> NoCache]
Next == /\ Len(hist) < N
        /\ \E op \in Ops : LET r == Do(st, op, Len(hist) + 1) IN
             /\ hist' = Append(hist, op)
             /\ st' = [fs |-> r.fs, cache |-> r.cache]
             /\ seen' = Append(seen, [obs |-> r.obs, listed |-> Listed(r.cache)])
EmitCase == Len(hist) < N \/ CSVWrite("%1$s", <<ToJson([fs |-> [x |-> "n1", y |-> "none"], ops |-> hist, want |-> seen])>>, IOEnv.OUT)
Once == \A k \in 1..Len(seen) : \A j \in k..Len(seen) :
          \A e \in seen[k].listed : (\E f \in seen[j].listed : f[1] = e[1] /\ (f[2] = e[2] \/ hist[f[2]][1] = "add"))
Quiet == \A k \in 1..Len(seen) : seen[k].obs[1] = "file" /\ seen[k].obs[3] => seen[k].obs[2] = k
=============================================================================
