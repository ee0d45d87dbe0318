-------------------------------- MODULE Conc --------------------------------
(* Evaluations at the same time (P13).  Each process evaluates object obj on     *)
(* caller's row r in steps: enter (prepare a private working row: replacements    *)
(* and derived fields), K gates (points where the evaluation reads its working    *)
(* row and the compiled model), return.  Shared: callers' rows, the document's    *)
(* models.  InPlace = TRUE is the design that prepares the caller's row itself;   *)
(* TLC refutes it (Conc_inplace.cfg).                                            *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Procs, Objects, Rows, K, InPlace
VARIABLES asg, pc, rows, models, work, out, sched
vars == <<asg, pc, rows, models, work, out, sched>>

ModelOf(o) == IF o = 2 THEN 2 ELSE 1
\* a row is a function from slots to contents: the caller's field and two derived ones
Caller(r) == [field |-> r, repl |-> 0, derived |-> <<>>]
Prepared(m, row) == [row EXCEPT !.repl = m, !.derived = <<m, row.field>>]
Read(m, row) == <<m, row.field, row.repl, row.derived>>
Alone(o, r) == [k \in 1..K |-> Read(ModelOf(o), Prepared(ModelOf(o), Caller(r)))]

Init ==
  /\ asg \in [Procs -> [o : Objects, r : Rows]]
  \* processes are interchangeable
  /\ \A p, q \in Procs : p < q => asg[p].o * 10 + asg[p].r <= asg[q].o * 10 + asg[q].r
  /\ pc = [p \in Procs |-> 0]
  /\ rows = [r \in Rows |-> Caller(r)]
  /\ models = [m \in {1, 2} |-> "compiled"]
  /\ work = [p \in Procs |-> Caller(0)]
  /\ out = [p \in Procs |-> <<>>]
  /\ sched = <<>>

RowOf(p) == IF InPlace THEN rows[asg[p].r] ELSE work[p]

Enter(p) ==
  /\ pc[p] = 0
  /\ LET prep == Prepared(ModelOf(asg[p].o), rows[asg[p].r]) IN
     IF InPlace THEN rows' = [rows EXCEPT ![asg[p].r] = prep] /\ UNCHANGED work
     ELSE work' = [work EXCEPT ![p] = prep] /\ UNCHANGED rows
  /\ UNCHANGED out
Gate(p) ==
  /\ pc[p] \in 1..K
  /\ out' = [out EXCEPT ![p] = Append(@, Read(ModelOf(asg[p].o), RowOf(p)))]
  /\ UNCHANGED <<rows, work>>
Step(p) ==
  /\ pc[p] <= K
  /\ Enter(p) \/ Gate(p)
  /\ pc' = [pc EXCEPT ![p] = @ + 1]
  /\ sched' = Append(sched, p)
  /\ UNCHANGED <<asg, models>>
Next == \E p \in Procs : Step(p)
Spec == Init /\ [][Next]_vars

\* locations a process's next step touches
Loc == {<<"row", r>> : r \in Rows} \cup {<<"work", p>> : p \in Procs} \cup {<<"model", m>> : m \in {1, 2}}
Writes(p) == IF pc[p] = 0 THEN {IF InPlace THEN <<"row", asg[p].r>> ELSE <<"work", p>>} ELSE {}
Reads(p)  == IF pc[p] = 0 THEN {<<"row", asg[p].r>>, <<"model", ModelOf(asg[p].o)>>}
             ELSE IF pc[p] <= K THEN {IF InPlace THEN <<"row", asg[p].r>> ELSE <<"work", p>>, <<"model", ModelOf(asg[p].o)>>} ELSE {}

RaceFree      == \A p, q \in Procs : p # q => Writes(p) \cap (Reads(q) \cup Writes(q)) = {}
RowsUntouched == \A r \in Rows : rows[r] = Caller(r)
AsAlone       == \A p \in Procs : pc[p] = K + 1 => out[p] = Alone(asg[p].o, asg[p].r)
Emit == (\A p \in Procs : pc[p] = K + 1) =>
          PrintT("@@" \o ToJson([procs |-> [p \in Procs |-> asg[p]], sched |-> sched]))
=============================================================================
