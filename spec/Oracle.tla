------------------------------- MODULE Oracle -------------------------------
(* Computes the outcomes the specification prescribes for documents and rows    *)
(* read from a file (one case per line) and prints them, one line per case.      *)
EXTENDS Verif, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.IN)

VARIABLES i, done
vars == <<i, done>>

Expected(c) ==
  [id |-> c.id, early |-> MayRefuse(c.doc),
   evals |-> [j \in 1..Len(c.rows) |-> EvalDoc(c.doc, c.rows[j])],
   verify |-> IF BuildOk(c.doc.model, c.doc.dd, c.doc.td) THEN Verdict(c.doc, c.doc.ver) ELSE "err"]

Init == i \in 1..Len(Cases) /\ done = FALSE
Next == ~done /\ done' = TRUE /\ i' = i /\ PrintT("@@" \o ToJson(Expected(Cases[i])))
Spec == Init /\ [][Next]_vars
=============================================================================
