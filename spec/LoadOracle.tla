----------------------------- MODULE LoadOracle -----------------------------
(* Computes what loading must give for documents read from a file (one per line). *)
EXTENDS Load, IOUtils
Docs == ndJsonDeserialize(IOEnv.IN)
VARIABLES i, done
vars == <<i, done>>
Out(d) == LET m == Loaded(d.root, d.toks) IN [id |-> d.id, root |-> d.root, toks |-> d.toks, st |-> m.st, tree |-> m.tree]
Init == i \in 1..Len(Docs) /\ done = FALSE
Next == ~done /\ done' = TRUE /\ i' = i /\ PrintT("@@" \o ToJson(Out(Docs[i])))
Spec == Init /\ [][Next]_vars
=============================================================================
