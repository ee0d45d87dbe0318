------------------------------ MODULE Session -------------------------------
(* Histories of calls on models built from one document (P12, P14).             *)
(* The document holds two models; objects 1 and 3 are built from the first,      *)
(* object 2 from the second.  Shared mutable state: the decoded document, which   *)
(* Build and Validate may complete with defaults (once: completing is idempotent) *)
(* and the callers' rows, which nobody may touch.  An object keeps what it        *)
(* compiled.  What an evaluation gives is a function of the model and the row.    *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Objects, Rows, MaxLen
VARIABLES doc, rows, obj, hist, res, given
\* given: the results the caller has received and keeps

ModelOf(o) == IF o = 2 THEN 2 ELSE 1

Complete(d)  == "completed"                  \* defaults filled in
Meaning(d)   == "meaning"                    \* same before and after completing
F(m, meaning, row) == <<m, meaning, row>>    \* the outcome

Init == /\ doc = "loaded" /\ rows = [r \in Rows |-> r]
        /\ obj = [o \in Objects |-> [st |-> "none", from |-> ""]]
        /\ hist = <<>> /\ res = [x \in {} |-> 0] /\ given = <<>>

Do(op, o, r, exp) == hist' = Append(hist, [op |-> op, o |-> o, r |-> r, exp |-> exp])

Build(o) == /\ doc' = Complete(doc)
            /\ obj' = [obj EXCEPT ![o] = [st |-> "ready", from |-> Meaning(doc')]]
            /\ Do("build", o, 0, "built") /\ UNCHANGED <<rows, res, given>>
Validate(o) == /\ obj[o].st = "ready" /\ doc' = Complete(doc)
               /\ Do("validate", o, 0, "ok") /\ UNCHANGED <<rows, obj, res, given>>
Compile(o) == /\ obj[o].st = "ready" /\ obj' = [obj EXCEPT ![o].from = Meaning(doc)]
              /\ Do("compile", o, 0, "ok") /\ UNCHANGED <<doc, rows, res, given>>
Verify(o) == /\ obj[o].st = "ready"
             /\ Do("verify", o, 0, "verdict") /\ UNCHANGED <<doc, rows, obj, res, given>>
Evaluate(o, r) ==
  /\ obj[o].st = "ready"
  /\ LET k == <<ModelOf(o), r>> v == F(ModelOf(o), obj[o].from, rows[r]) IN
     res' = [x \in DOMAIN res \cup {k} |-> IF x = k /\ k \notin DOMAIN res THEN v ELSE res[x]] /\ given' = Append(given, v)
  /\ Do("evaluate", o, r, "outcome") /\ UNCHANGED <<doc, rows, obj>>

Next == /\ Len(hist) < MaxLen
        /\ \E o \in Objects : \/ Build(o) \/ Validate(o) \/ Compile(o) \/ Verify(o)
                              \/ \E r \in Rows : Evaluate(o, r)
Spec == Init /\ [][Next]_<<doc, rows, obj, hist, res, given>>

RowsUntouched == \A r \in Rows : rows[r] = r
\* every result so far is the one the model alone would have given
ResultsPure == \A k \in DOMAIN res : res[k] = F(k[1], "meaning", k[2])
ReadyStays  == [][\A o \in Objects : obj[o].st = "ready" => obj'[o].st = "ready"]_obj
EvaluateReadOnly == [][(hist' # hist /\ hist'[Len(hist')].op = "evaluate") => UNCHANGED <<doc, rows, obj>>]_<<doc, rows, obj, hist, res, given>>

\* a result once given is never changed
GivenKept == [][Len(given) <= Len(given') /\ \A i \in 1..Len(given) : given'[i] = given[i]]_given

\* histories worth replaying: complete ones
Emit == Len(hist) = MaxLen => PrintT("@@" \o ToJson(hist))
=============================================================================
