------------------------------- MODULE Engine -------------------------------
(* Scoring as a state machine: one step imputes one field, computes one derived  *)
(* field, looks at one child of a tree node or at one segment.  The modules        *)
(* MC_* give families of documents with rows (Cases); TLC runs the machine on     *)
(* every one of them, checks that its result is the one Model.tla prescribes and    *)
(* the invariants below, and prints every document with the outcomes of its rows    *)
(* for the replay against the code.                                              *)
EXTENDS Verif, Json, IOUtils

CONSTANT Cases          \* set of [doc, rows], rows a sequence

VARIABLES doc, rows, mode, stack, ret
\* doc, rows: what is scored; mode: "run" (one row), "print" or "printed" (all rows);
\* stack: what is being evaluated, innermost last; ret: what the last finished part gave
vars == <<doc, rows, mode, stack, ret>>

Doc == doc
Caller == rows[1]

Nothing  == [k |-> "nothing"]
PredR(p) == [k |-> "pred", p |-> p]
OutR(o)  == [k |-> "out", o |-> o]

ModelFrame(m, td, row) == [k |-> "model", m |-> m, td |-> td, row |-> row, ph |-> "start", i |-> 1, acc |-> <<>>]
NodeFrame(n, pen) == [k |-> "node", n |-> n, pen |-> pen, i |-> 1, ph |-> "walk", acc |-> <<>>, w |-> <<>>]

Top == stack[Len(stack)]
Below == SubSeq(stack, 1, Len(stack) - 1)
\* the model whose tree is being walked
Ctx == stack[CHOOSE i \in 1..Len(stack) : stack[i].k = "model" /\ \A j \in (i + 1)..Len(stack) : stack[j].k # "model"]
CtxTypes == TypeOf(Doc.dd, Ctx.td \o Ctx.m.lt)
CtxClasses == DeclaredClasses(Doc.dd, TargetOf(Ctx.m.schema))

Running == mode = "run" /\ stack # <<>>
Done == mode = "run" /\ stack = <<>> /\ ret.k = "out"

Stay == UNCHANGED <<doc, rows, mode>>
Return(v) == stack' = Below /\ ret' = v /\ Stay
Update(f) == stack' = Append(Below, f) /\ ret' = Nothing /\ Stay
Push(f, g) == stack' = Append(Below, f) \o <<g>> /\ ret' = Nothing /\ Stay
Jump(g) == stack' = Append(Below, g) /\ ret' = Nothing /\ Stay

At(k, ph) == Running /\ Top.k = k /\ Top.ph = ph

-----------------------------------------------------------------------------
Init ==
  \E c \in Cases :
    /\ doc = c.doc
    /\ \/ mode = "print" /\ rows = c.rows
       \/ mode = "run" /\ \E i \in 1..Len(c.rows) : rows = <<c.rows[i]>>
    /\ stack = <<>> /\ ret = Nothing

Start ==
  /\ mode = "run" /\ stack = <<>> /\ ret = Nothing
  /\ IF Doc.model.kind = "unsup" \/ ~BuildOk(Doc.model, Doc.dd, Doc.td)
     THEN stack' = <<>> /\ ret' = OutR(ErrO)
     ELSE IF Supplied(Doc, Caller) THEN stack' = <<>> /\ ret' = OutR(UndefO)
     ELSE stack' = <<ModelFrame(Doc.model, Doc.td, Caller)>> /\ ret' = Nothing
  /\ Stay

\* Inside a mining model: where computing an enclosing derived field again would
\* give something else, the properties leave the row open.
Enter ==
  /\ At("model", "start")
  /\ IF Prepare(Top.row, Top.m.schema, Top.td, Top.m.lt, TRUE).st = "undef"
     THEN Return(OutR(UndefO)) ELSE Update([Top EXCEPT !.ph = "impute"])

ImputeField ==
  /\ At("model", "impute")
  /\ IF Top.i > Len(Top.m.schema) THEN Update([Top EXCEPT !.ph = "derive", !.i = 1])
     ELSE LET f == Top.m.schema[Top.i] IN
          Update([Top EXCEPT !.i = @ + 1,
                             !.row = IF f.repl # <<>> /\ Missing(@, f.name) THEN Put(@, f.name, LitV(f.repl[1])) ELSE @])

DeriveField ==
  /\ At("model", "derive")
  /\ LET fields == Top.td \o Top.m.lt IN
     IF Top.i > Len(fields) THEN Update([Top EXCEPT !.ph = "score", !.i = 1])
     ELSE IF Top.i <= Len(Top.td) /\ Has(Top.row, fields[Top.i].name)       \* an enclosing model has computed it
     THEN Update([Top EXCEPT !.i = @ + 1])
     ELSE LET v == Derive(fields[Top.i], Top.row) IN
          IF v.st = "ok" THEN Update([Top EXCEPT !.i = @ + 1, !.row = Put(@, fields[Top.i].name, v.v)])
          ELSE Return(OutR(IF v.st = "err" THEN ErrO ELSE UndefO))

ScoreRegression ==
  At("model", "score") /\ Top.m.kind = "reg" /\ Return(OutR(RegOutcome(Top.m, Top.row)))

\* -- trees --------------------------------------------------------------------
EnterRoot ==
  /\ At("model", "score") /\ Top.m.kind = "tree"
  /\ IF ~TreeDef(Top.m, Top.row, CtxTypes, CtxClasses) THEN Return(OutR(UndefO))
     ELSE IF EvalPred(Top.m.root.pred, Top.row, CtxTypes) = "T"
     THEN Push([Top EXCEPT !.ph = "tree"], NodeFrame(Top.m.root, ROne))
     ELSE stack' = Append(Below, [Top EXCEPT !.ph = "tree"]) /\ ret' = PredR(<<>>) /\ Stay

Give(p) == Return(PredR(Penalise(p, Top.pen)))
ChildIs == EvalPred(Top.n.ch[Top.i].pred, Ctx.row, CtxTypes)
Combining == Ctx.m.strat \in {"weightedConfidence", "aggregateNodes"}

NoChildLeft ==
  /\ At("node", "walk") /\ Top.i > Len(Top.n.ch)
  /\ Give(IF Top.n.ch # <<>> /\ Ctx.m.ntc = "returnNullPrediction" THEN <<>> ELSE Own(Top.n, Ctx.m.fn, CtxClasses))

ChildFalse ==
  /\ At("node", "walk") /\ Top.i <= Len(Top.n.ch) /\ ChildIs = "F"
  /\ Update([Top EXCEPT !.i = @ + 1])

ChildTrue ==
  /\ At("node", "walk") /\ Top.i <= Len(Top.n.ch) /\ ChildIs = "T"
  /\ Jump(NodeFrame(Top.n.ch[Top.i], Top.pen))

ChildUnknown ==
  /\ At("node", "walk") /\ Top.i <= Len(Top.n.ch) /\ ChildIs = "U"
  /\ CASE Ctx.m.strat \in {"", "none"}   -> Update([Top EXCEPT !.i = @ + 1])
       [] Ctx.m.strat = "nullPrediction" -> Give(<<>>)
       [] Ctx.m.strat = "lastPrediction" -> Give(Own(Top.n, Ctx.m.fn, CtxClasses))
       [] Ctx.m.strat = "defaultChild"   ->
            LET d == DefaultIdx(Top.n) IN
            IF d = 0 THEN Give(<<>>) ELSE Jump(NodeFrame(Top.n.ch[d], RMul(Top.pen, Penalty(Ctx.m))))
       [] OTHER -> Push([Top EXCEPT !.ph = "collect"], NodeFrame(Top.n.ch[Top.i], ROne))

\* a combined child has predicted: go on with the next one that is not false
Collect ==
  /\ At("node", "collect") /\ ret.k = "pred"
  /\ LET acc == Append(Top.acc, ret.p)
         w   == Append(Top.w, Q(Top.n.ch[Top.i].rc))
         rest == {j \in (Top.i + 1)..Len(Top.n.ch) : EvalPred(Top.n.ch[j].pred, Ctx.row, CtxTypes) # "F"}
     IN IF rest = {} THEN Give(IF Ctx.m.strat = "weightedConfidence" THEN Weighted(acc, w) ELSE Pooled(acc))
        ELSE Push([Top EXCEPT !.acc = acc, !.w = w, !.i = Least(rest)], NodeFrame(Top.n.ch[Least(rest)], ROne))

TreeDone ==
  /\ At("model", "tree") /\ ret.k = "pred"
  /\ Return(OutR(PredOutcome(Top.m, ret.p)))

\* -- mining models ------------------------------------------------------------
GateIs == Gate(Top.m, Top.i, Doc.dd, Top.td, Top.row)
Combines == Top.m.method \in {"", "sum", "average"}
Segment == ModelFrame(Top.m.segs[Top.i].models[1], Top.td \o Top.m.lt, Top.row)

NoSegmentLeft ==
  /\ At("model", "score") /\ Top.m.kind = "mining" /\ Top.i > Len(Top.m.segs)
  /\ Return(OutR(CASE Combines -> Aggregate(Top.m, Top.acc)
                   [] Top.m.method = "selectFirst" -> ErrO
                   [] OTHER -> IF Top.acc = <<>> THEN UndefO ELSE Top.acc[Len(Top.acc)]))

SegmentStep ==
  /\ At("model", "score") /\ Top.m.kind = "mining" /\ Top.i <= Len(Top.m.segs)
  /\ CASE GateIs = "?" -> Return(OutR(UndefO))
       [] GateIs = "T" -> Push([Top EXCEPT !.ph = "segment"], Segment)
       [] OTHER        -> Update([Top EXCEPT !.i = @ + 1])

SegmentDone ==
  /\ At("model", "segment") /\ ret.k = "out"
  /\ LET o == ret.o
         next == [Top EXCEPT !.ph = "score", !.i = @ + 1, !.acc = Append(@, o)]
     IN CASE Top.m.method = "selectFirst" -> Return(OutR(o))
          [] Combines -> Update(next)
          [] o.st \in {"undef", "err"} -> Return(OutR(o))
          [] Top.i = Len(Top.m.segs) -> Return(OutR(o))
          [] ~InputAble(o.out) ->
               Return(OutR(IF \A j \in (Top.i + 1)..Len(Top.m.segs) : Gate(Top.m, j, Doc.dd, Top.td, Top.row) \in {"F", "U"}
                           THEN o ELSE UndefO))
          [] OTHER -> Update([next EXCEPT !.row = Overlay(@, o.out)])

Stopped == (Done \/ mode = "printed") /\ UNCHANGED vars

\* -- printing ------------------------------------------------------------------
ExpectedOf(case) ==
  [id |-> "", early |-> MayRefuse(case.doc), evals |-> [j \in 1..Len(case.rows) |-> EvalDoc(case.doc, case.rows[j])],
   verify |-> IF BuildOk(case.doc.model, case.doc.dd, case.doc.td) THEN Verdict(case.doc, case.doc.ver) ELSE "err"]
PrintCase ==
  /\ mode = "print"
  /\ LET c == [doc |-> doc, rows |-> rows] IN PrintT("@@" \o ToJson([case |-> c, exp |-> ExpectedOf(c)]))
  /\ mode' = "printed" /\ UNCHANGED <<doc, rows, stack, ret>>

Next == \/ Start \/ Enter \/ ImputeField \/ DeriveField \/ ScoreRegression
        \/ EnterRoot \/ NoChildLeft \/ ChildFalse \/ ChildTrue \/ ChildUnknown \/ Collect \/ TreeDone
        \/ NoSegmentLeft \/ SegmentStep \/ SegmentDone
        \/ Stopped \/ PrintCase
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* The machine gives what Model.tla prescribes.
Agree == Done => LET o == EvalDoc(Doc, Caller) IN o.st = "undef" \/ ret.o = o

\* Outputs of the chain segments already run, which overlay the caller's fields.
ChainSets(i) ==
  UNION {DOMAIN stack[j].acc[k].out : <<j, k>> \in
           {<<j, k>> \in (1..i) \X (1..8) : stack[j].k = "model" /\ stack[j].m.method = "modelChain" /\ k <= Len(stack[j].acc)}}
\* What the caller supplied is seen unchanged by every model, at every step.
CallerSeen ==
  \A i \in 1..Len(stack) : stack[i].k = "model" =>
    \A f \in DOMAIN Caller : ~IsNil(Caller[f]) /\ f \notin ChainSets(i) =>
      Has(stack[i].row, f) /\ stack[i].row[f] = Caller[f]
\* Whatever is missing in a model's row has no replacement in its schema.
Imputed ==
  \A i \in 1..Len(stack) : stack[i].k = "model" /\ stack[i].ph \notin {"start", "impute"} =>
    \A j \in 1..Len(stack[i].m.schema) :
      stack[i].m.schema[j].repl # <<>> /\ stack[i].m.schema[j].name \notin {stack[i].m.lt[x].name : x \in 1..Len(stack[i].m.lt)}
        => ~Missing(stack[i].row, stack[i].m.schema[j].name)
\* Nodes are only entered through predicates that allow it.
Entered ==
  \A i \in 1..Len(stack) : stack[i].k = "node" /\ i = Len(stack) /\ Ctx.m.strat # "defaultChild" =>
    LET v == EvalPred(stack[i].n.pred, Ctx.row, CtxTypes) IN IF Combining THEN v # "F" ELSE v = "T"
\* Penalties only shrink or grow through default children.
PenaltyOnlyByDefault ==
  \A i \in 1..Len(stack) : stack[i].k = "node" => stack[i].pen = ROne \/ Ctx.m.strat = "defaultChild"
\* Every segment is run at most once, in document order.
RunsInOrder ==
  \A i \in 1..Len(stack) : stack[i].k = "model" /\ stack[i].m.kind = "mining" /\ stack[i].ph = "score" =>
    Len(stack[i].acc) <= stack[i].i - 1
=============================================================================
