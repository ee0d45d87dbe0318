-------------------------------- MODULE Model -------------------------------
(* Models of all kinds: construction (P15) and evaluation (P02-P10).            *)
(* m.kind: "tree", "reg", "mining" or "unsup".  A document is [dd, td, model].   *)
(* Outcomes: [st |-> "ok", out |-> function from names to output values],       *)
(* "null" (no prediction, no error), "err", or "undef" (left open).             *)
(* Output values: [o |-> "num", e |-> symbolic number],                         *)
(*                [o |-> "label", ls |-> acceptable class literals].            *)
EXTENDS Tree, Expr, Regr

OutOk(out) == IF DOMAIN out = {} THEN [st |-> "null", out |-> out] ELSE [st |-> "ok", out |-> out]
NoOut      == [x \in {} |-> 0]
NullO      == [st |-> "null", out |-> NoOut]
ErrO       == [st |-> "err", out |-> NoOut]
UndefO     == [st |-> "undef", out |-> NoOut]
OutNum(e)  == [o |-> "num", e |-> e]

\* field types visible to a model: data dictionary and derived fields
Types(dd, dfs) ==
  [f \in {dd[i].name : i \in 1..Len(dd)} \cup {dfs[i].name : i \in 1..Len(dfs)} |->
     IF \E i \in 1..Len(dfs) : dfs[i].name = f
     THEN (CHOOSE i \in 1..Len(dfs) : dfs[i].name = f /\ \A j \in 1..Len(dfs) : dfs[j].name = f => j <= i) 
     ELSE 0]
TypeOf(dd, dfs) ==
  LET idx == Types(dd, dfs) IN
  [f \in DOMAIN idx |->
     IF idx[f] # 0 THEN dfs[idx[f]].type
     ELSE dd[CHOOSE i \in 1..Len(dd) : dd[i].name = f].type]

TargetOf(schema) ==
  LET S == {i \in 1..Len(schema) : schema[i].usage = "target"}
  IN IF Cardinality(S) # 1 THEN "" ELSE schema[CHOOSE i \in S : TRUE].name
DeclaredClasses(dd, target) ==
  LET S == {i \in 1..Len(dd) : dd[i].name = target /\ target # ""}
  IN IF S = {} THEN <<>> ELSE dd[CHOOSE i \in S : TRUE].values

Fns     == {"classification", "regression"}
Methods == {"", "sum", "average", "selectFirst", "modelChain"}

SegPred(seg) == IF seg.preds = <<>> THEN [p |-> "true"] ELSE seg.preds[1]

RECURSIVE BuildOk(_, _, _)
BuildOk(m, dd, td) ==
  CASE m.kind = "tree" ->
         /\ m.fn \in Fns
         /\ NodeOk(m.root, TypeOf(dd, td \o m.lt))
    [] m.kind = "reg" ->
         /\ m.fn \in Fns
         /\ m.norm \in Norms \cup {""}
         /\ \A i \in 1..Len(m.outs) :
              m.outs[i].feature \in {"", "probability"} \/ (m.outs[i].feature = "predictedValue" /\ m.fn = "regression")
    [] m.kind = "mining" ->
         /\ m.fn \in Fns
         /\ m.method \in Methods
         /\ \A i \in 1..Len(m.outs) : m.outs[i].feature \in {"", "probability"}
         /\ \A i \in 1..Len(m.segs) :
              /\ Len(m.segs[i].models) = 1
              /\ Len(m.segs[i].preds) <= 1
              /\ PredOk(SegPred(m.segs[i]), TypeOf(dd, td \o m.lt))
              /\ BuildOk(m.segs[i].models[1], dd, td \o m.lt)
    [] OTHER -> FALSE

-----------------------------------------------------------------------------
\* what a model returns for its tree's prediction
PredOutcome(m, pred) ==
  LET target == TargetOf(m.schema)
      comb   == m.strat \in {"weightedConfidence", "aggregateNodes"}
      keys   == {"probability(" \o pred[i].l.s \o ")" : i \in 1..Len(pred)}
  IN
  IF pred = <<>> THEN NullO
  ELSE IF m.fn = "regression" THEN
    IF pred[1].l.isnum THEN OutOk([k \in {"score"} |-> OutNum(SymQ(LitR(pred[1].l)))]) ELSE ErrO
  ELSE IF target = "" \/ target \in keys THEN UndefO
  ELSE
    LET best == BestLabels(pred) IN
    OutOk([k \in {target} \cup keys |->
             IF k = target THEN [o |-> "label", ls |-> IF comb THEN best ELSE <<best[1]>>]
             ELSE LET i == CHOOSE i \in 1..Len(pred) : "probability(" \o pred[i].l.s \o ")" = k
                  IN OutNum(SymQ(pred[i].p))])

TreeOutcome(m, row, dd, types) ==
  LET classes == DeclaredClasses(dd, TargetOf(m.schema)) IN
  IF ~TreeDef(m, row, types, classes) THEN UndefO
  ELSE PredOutcome(m, TreePrediction(m, row, types, classes))

NormOf(m) == IF m.norm = "" THEN "none" ELSE m.norm

RegOutcome(m, row) ==
  LET ts   == m.tables
      norm == NormOf(m)
      \* every output asks for the category of one table; several may ask for the same one
      proper == /\ m.outs # <<>> /\ Len(ts) >= 2
                /\ \A i \in 1..Len(m.outs) : \E j \in 1..Len(ts) : ts[j].cat = m.outs[i].value
                /\ \A i, j \in 1..Len(ts) : i # j => ts[i].cat # ts[j].cat
                /\ \A i, j \in 1..Len(m.outs) : i # j => m.outs[i].name # m.outs[j].name
      OutOf(k)   == m.outs[CHOOSE j \in 1..Len(m.outs) : m.outs[j].name = k]
      TableOf(k) == CHOOSE i \in 1..Len(ts) : ts[i].cat = OutOf(k).value
      names      == {m.outs[i].name : i \in 1..Len(m.outs)}
  IN
  IF m.fn = "regression" THEN
    IF Len(ts) # 1 \/ Len(m.outs) # 1 THEN ErrO
    ELSE IF ts[1].terms THEN ErrO
    ELSE IF ~Complete(ts[1], row) THEN ErrO
    ELSE IF ~Determined(ts[1], row) \/ norm \notin Links THEN UndefO
    ELSE OutOk([k \in {m.outs[1].name} |-> OutNum(SymLink(norm, Linear(ts[1], row)))])
  ELSE IF ~proper THEN UndefO
  ELSE IF \E i \in 1..Len(ts) : ts[i].terms THEN ErrO
  ELSE IF \E i \in 1..Len(ts) : ~Complete(ts[i], row) THEN ErrO
  ELSE IF \E i \in 1..Len(ts) : ~Determined(ts[i], row) THEN UndefO
  ELSE IF Len(ts) = 2 THEN
    \* binary: the first table is linked, the table without terms is the rest
    IF norm \notin Links \/ HasTerms(ts[2]) \/ (norm = "softmax" /\ ts[2].intercept.n # 0) THEN UndefO
    ELSE LET y == Linear(ts[1], row)
         IN OutOk([k \in names |-> IF TableOf(k) = 1 THEN OutNum(SymLink(norm, y)) ELSE OutNum(SymCo(norm, y))])
  ELSE
    LET ys == [i \in 1..Len(ts) |-> Linear(ts[i], row)]
        total == RSumSeq(ys)
    IN CASE norm = "softmax" -> OutOk([k \in names |-> OutNum(SymSoft(TableOf(k), ys))])
         [] norm = "simplemax" ->
              IF total.n = 0 THEN UndefO
              ELSE OutOk([k \in names |-> OutNum(SymQ(RDiv(ys[TableOf(k)], total)))])
         [] OTHER -> ErrO

\* An output as a row value for the next model of a chain.
AsInput(v) == IF v.o = "label" THEN LitV(v.ls[1])
              ELSE NumV(R(v.e.n, v.e.d))
InputAble(out) == \A k \in DOMAIN out :
                    IF out[k].o = "label" THEN Len(out[k].ls) = 1 ELSE out[k].e.x = "q"
Overlay(row, out) == [k \in DOMAIN row \cup DOMAIN out |-> IF k \in DOMAIN out THEN AsInput(out[k]) ELSE row[k]]

\* The names an aggregating mining model returns.
AggNames(m) == {m.outs[i].name : i \in 1..Len(m.outs)} \cup {m.targets[i].field : i \in 1..Len(m.targets)}

\* The entry of a segment's result that is aggregated under name k.
PartName(m, k) == IF m.fn = "regression" THEN "score" ELSE k

\* What a result adds to the aggregate under a name: nothing when it has no such entry.
PartValue(part, name) == IF name \in DOMAIN part.out THEN part.out[name].e ELSE SymQ(RZero)

\* Sum of that entry over the selected segments' results.
RECURSIVE SumParts(_, _)
SumParts(parts, name) ==
  IF parts = <<>> THEN SymQ(RZero)
  ELSE IF Len(parts) = 1 THEN PartValue(parts[1], name)
  ELSE SymAdd(PartValue(parts[1], name), SumParts(Tail(parts), name))

Rescale(m, k, e) ==
  LET S == {i \in 1..Len(m.targets) : m.targets[i].field = k} IN
  IF S = {} THEN e
  ELSE LET t  == m.targets[CHOOSE i \in S : TRUE]
           e1 == IF t.factor # <<>> THEN SymMul(e, R(t.factor[1].n, t.factor[1].d)) ELSE e
       IN  IF t.const # <<>> THEN SymAdd(e1, SymQ(R(t.const[1].n, t.const[1].d))) ELSE e1

\* The aggregate of the selected segments' outcomes, in document order.
Aggregate(m, parts) ==
  LET n == Len(parts)
      FieldOf(t) == t.field
  IN
  IF \E i \in 1..n : parts[i].st = "undef" THEN UndefO
  ELSE IF \E i \in 1..n : parts[i].st = "err" THEN ErrO
  ELSE IF ~Distinct(FieldOf, m.targets) THEN UndefO
  ELSE IF \E i \in 1..n : \E k \in AggNames(m) :
            IF PartName(m, k) \in DOMAIN parts[i].out THEN parts[i].out[PartName(m, k)].o # "num"
            ELSE m.fn = "regression" /\ parts[i].st # "null" THEN UndefO
  ELSE IF m.method = "average" /\ n = 0 THEN ErrO
  ELSE OutOk([k \in AggNames(m) |->
          LET s == SumParts(parts, PartName(m, k))
          IN  OutNum(Rescale(m, k, IF m.method = "average" THEN SymMul(s, R(1, n)) ELSE s))])

RECURSIVE EvalModel(_, _, _, _), ChainFrom(_, _, _, _, _, _), Parts(_, _, _, _, _), FirstFrom(_, _, _, _, _)

\* Evaluate m on a row; td: derived fields of the dictionary and of the enclosing models.
EvalModel(m, dd, td, row) ==
  LET p == Prepare(row, m.schema, td, m.lt, TRUE)
      types == TypeOf(dd, td \o m.lt)
  IN
  IF p.st = "undef" THEN UndefO
  ELSE IF p.st = "err" THEN ErrO
  ELSE CASE m.kind = "tree"   -> TreeOutcome(m, p.row, dd, types)
         [] m.kind = "reg"    -> RegOutcome(m, p.row)
         [] m.method = "selectFirst" -> FirstFrom(m, 1, dd, td, p.row)
         [] m.method = "modelChain"  -> ChainFrom(m, 1, dd, td, p.row, UndefO)
         [] OTHER -> LET ps == Parts(m, 1, dd, td, p.row) IN
                     IF ps.st = "undef" THEN UndefO ELSE Aggregate(m, ps.parts)

\* a segment's predicate, "?" where the row leaves it open
Gate(m, i, dd, td, row) ==
  LET types == TypeOf(dd, td \o m.lt) p == SegPred(m.segs[i]) IN
  IF PredDef(p, row, types) THEN EvalPred(p, row, types) ELSE "?"

SegEval(m, i, dd, td, row) == EvalModel(m.segs[i].models[1], dd, td \o m.lt, row)

FirstFrom(m, i, dd, td, row) ==
  IF i > Len(m.segs) THEN ErrO
  ELSE LET g == Gate(m, i, dd, td, row) IN
       IF g = "?" THEN UndefO
       ELSE IF g = "T" THEN SegEval(m, i, dd, td, row)
       ELSE FirstFrom(m, i + 1, dd, td, row)

\* last: result of the last segment run so far (UndefO before the first)
ChainFrom(m, i, dd, td, row, last) ==
  IF i > Len(m.segs) THEN last
  ELSE LET g == Gate(m, i, dd, td, row) IN
       IF g = "?" THEN UndefO
       ELSE IF g # "T" THEN ChainFrom(m, i + 1, dd, td, row, last)
       ELSE LET r == SegEval(m, i, dd, td, row) IN
            IF r.st \in {"undef", "err"} THEN r
            ELSE IF i = Len(m.segs) THEN r
            ELSE IF ~InputAble(r.out) THEN
              \* a result with irrational entries can only be the last one
              IF \A j \in (i + 1)..Len(m.segs) : Gate(m, j, dd, td, row) \in {"F", "U"} THEN r ELSE UndefO
            ELSE ChainFrom(m, i + 1, dd, td, Overlay(row, r.out), r)

\* outcomes of the selected segments, in document order
Parts(m, i, dd, td, row) ==
  IF i > Len(m.segs) THEN [st |-> "ok", parts |-> <<>>]
  ELSE LET g == Gate(m, i, dd, td, row)
           rest == Parts(m, i + 1, dd, td, row)
       IN  IF g = "?" \/ rest.st = "undef" THEN [st |-> "undef", parts |-> <<>>]
           ELSE IF g # "T" THEN rest
           ELSE [st |-> "ok", parts |-> <<SegEval(m, i, dd, td, row)>> \o rest.parts]

\* The caller may not supply values for fields the document derives.
RECURSIVE DerivedNames(_)
DerivedNames(m) ==
  {m.lt[i].name : i \in 1..Len(m.lt)} \cup
  (IF m.kind # "mining" THEN {}
   ELSE UNION {UNION {DerivedNames(m.segs[i].models[j]) : j \in 1..Len(m.segs[i].models)} : i \in 1..Len(m.segs)})
Supplied(doc, row) ==
  \E f \in DOMAIN row : f \in {doc.td[i].name : i \in 1..Len(doc.td)} \cup DerivedNames(doc.model)

\* Parts the library does not support and only notices when it reaches them.
RECURSIVE Reachable(_)
Reachable(m) ==
  CASE m.kind = "reg" ->
            /\ \A i \in 1..Len(m.tables) : ~m.tables[i].terms
            /\ m.fn = "regression" => Len(m.tables) = 1 /\ Len(m.outs) = 1
    [] m.kind = "mining" ->
            \A i \in 1..Len(m.segs) : \A j \in 1..Len(m.segs[i].models) : Reachable(m.segs[i].models[j])
    [] OTHER -> TRUE

\* The document asks for an unsupported expression.  Whether the model refuses to be
\* built is left open; if it is built, only an evaluation that meets it fails.
RECURSIVE OddExprs(_)
OddExprs(m) ==
  /\ m.kind # "unsup"
  /\ \/ \E i \in 1..Len(m.lt) : ~ExprOk(m.lt[i].expr)
     \/ /\ m.kind = "mining"
        /\ \E i \in 1..Len(m.segs) : \E j \in 1..Len(m.segs[i].models) : OddExprs(m.segs[i].models[j])
MayRefuse(doc) == OddExprs(doc.model) \/ \E i \in 1..Len(doc.td) : ~ExprOk(doc.td[i].expr)

EvalDoc(doc, row) ==
  IF doc.model.kind = "unsup" THEN ErrO
  ELSE IF ~BuildOk(doc.model, doc.dd, doc.td) THEN ErrO
  ELSE IF Supplied(doc, row) THEN UndefO
  ELSE LET o == EvalModel(doc.model, doc.dd, doc.td, row) IN
       IF o.st = "err" \/ Reachable(doc.model) THEN o
       ELSE UndefO       \* unsupported, but not met: the library may reject the document early
=============================================================================
