-------------------------------- MODULE Life --------------------------------
(* The life of one tree or mining model object made without its constructor      *)
(* (P14): it evaluates only after it was validated and then compiled.            *)
(* kind "zero": the zero value, which has no document.  "raw": an object holding  *)
(* a supported document.  "bad": one holding a document the library rejects.      *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANT MaxLen
VARIABLES kind, validated, compiled, inorder, hist
vars == <<kind, validated, compiled, inorder, hist>>
Init == kind \in {"zero", "raw", "bad"} /\ validated = FALSE /\ compiled = FALSE /\ inorder = TRUE /\ hist = <<>>

Do(op, exp) == hist' = Append(hist, [op |-> op, exp |-> exp])

\* inorder: compiled after it was validated (compiling first is left open)
Validate == /\ kind # "zero"
            /\ validated' = TRUE
            /\ Do("validate", IF kind = "raw" THEN "ok" ELSE "any") /\ UNCHANGED <<kind, compiled, inorder>>
Compile == /\ kind # "zero"
           /\ compiled' = TRUE /\ inorder' = (validated \/ (compiled /\ inorder))
           /\ Do("compile", IF kind = "raw" /\ validated THEN "ok" ELSE "any") /\ UNCHANGED <<kind, validated>>
Guard == IF kind = "bad" THEN "refused"
         ELSE IF ~validated THEN "ErrNotValidated"
         ELSE IF ~compiled THEN "ErrNotCompiled"
         ELSE IF ~inorder THEN "open" ELSE "outcome"
Evaluate == Do("evaluate", Guard) /\ UNCHANGED <<kind, validated, compiled, inorder>>
Verify == /\ kind # "zero"
          /\ Do("verify", IF Guard = "outcome" THEN "verdict" ELSE "any") /\ UNCHANGED <<kind, validated, compiled, inorder>>
Next == Len(hist) < MaxLen /\ (Validate \/ Compile \/ Evaluate \/ Verify)
Spec == Init /\ [][Next]_vars

\* no result without validation and compilation
Guarded == \A i \in 1..Len(hist) : hist[i].exp = "outcome" =>
             \E j, k \in 1..i : j < k /\ hist[j].op = "validate" /\ hist[k].op = "compile"
\* once ready, always ready
Stays == [][Guard = "outcome" => Guard' = "outcome"]_vars
Emit == Len(hist) = MaxLen => PrintT("@@" \o ToJson([kind |-> kind, hist |-> hist]))
=============================================================================
