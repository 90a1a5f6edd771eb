------------------------------- MODULE Parser -------------------------------
(***************************************************************************)
(* The parser's registry of files over a changing file system.             *)
(* fs: name -> content, "dir" or "none"; cache: name -> <<id, content,     *)
(* syntax>> of the file parsed first (or added), id being the step that    *)
(* made it.                                                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

\* contents by name: which syntax accepts them and the value of "a" there
Good(c, syn) == <<c, syn>> \in {<<"n1", "hcl">>, <<"n2", "hcl">>, <<"j1", "json">>, <<"j2", "json">>, <<"empty", "hcl">>}
ValueOf(c, syn) == CASE ~Good(c, syn) -> "open" [] c \in {"n1", "j1"} -> "1" [] c \in {"n2", "j2"} -> "2" [] OTHER -> "none"
Readable(fs, n) == fs[n] \notin {"none", "dir"}

\* op: <<kind, name, content>>; k: the step
Parse(cache, n, c, syn, k) ==
  IF n \in DOMAIN cache
  THEN [cache |-> cache, obs |-> <<"file", cache[n][1], FALSE, cache[n][2], ValueOf(cache[n][2], cache[n][3])>>]
  ELSE [cache |-> cache @@ (n :> <<k, c, syn>>), obs |-> <<"file", k, ~Good(c, syn), c, ValueOf(c, syn)>>]
Do(st, op, k) ==
  LET n == op[2] c == op[3] IN
  CASE op[1] = "hcl" -> Parse(st.cache, n, c, "hcl", k) @@ [fs |-> st.fs]
    [] op[1] = "json" -> Parse(st.cache, n, c, "json", k) @@ [fs |-> st.fs]
    [] op[1] \in {"hclfile", "jsonfile"} ->
         IF n \notin DOMAIN st.cache /\ ~Readable(st.fs, n)
         THEN [cache |-> st.cache, fs |-> st.fs, obs |-> <<"nofile">>]
         ELSE Parse(st.cache, n, st.fs[n], IF op[1] = "hclfile" THEN "hcl" ELSE "json", k) @@ [fs |-> st.fs]
    [] op[1] = "add" -> [cache |-> (n :> <<k, c, "hcl">>) @@ st.cache, fs |-> st.fs, obs |-> <<"done">>]
    [] OTHER -> [cache |-> st.cache, fs |-> [st.fs EXCEPT ![n] = c], obs |-> <<"done">>]
Listed(cache) == {<<n, cache[n][1], cache[n][2]>> : n \in DOMAIN cache}
NoCache == [x \in {} |-> <<>>]
=============================================================================
