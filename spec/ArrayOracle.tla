---------------------------- MODULE ArrayOracle -----------------------------
(* What the accessors give for the array texts in file IN: lines [type, text].   *)
EXTENDS Array, Json, IOUtils
VARIABLES i, done
Cases == ndJsonDeserialize(IOEnv.IN)
Init == i \in 1..Len(Cases) /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ i' = i
        /\ LET c == Cases[i] IN
           PrintT("@@" \o ToJson([type |-> c.type, text |-> c.text, exp |-> [acc \in Accessors |-> Outcome(c.type, acc, c.text)]]))
=============================================================================
