----------------------------- MODULE ConvOracle -----------------------------
(* Prescriptions for the values in file IN: lines [g, chars].                   *)
EXTENDS Conv, Json, IOUtils
VARIABLES i, done
Cases == ndJsonDeserialize(IOEnv.IN)
Init == i \in 1..Len(Cases) /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ i' = i
        /\ PrintT("@@" \o ToJson(Prescribe(Cases[i].g, Cases[i].chars)))
=============================================================================
