-------------------------------- MODULE Tree --------------------------------
(* Decision trees (P03, P04, P05): big-step meaning of a tree.                 *)
(*  node [id, dc, score, rc, pred, dist, ch]                                   *)
(*    score: literal, rc: rational, dist: sequence of [v, rc, prob] (v literal, *)
(*    prob <<>> or <<rational>>), ch: sequence of nodes                         *)
(*  tree [fn, strat, ntc, pen, ...]  pen <<>> or <<rational>>                  *)
(* A prediction is a sequence of entries [l, p, rc] (class literal,            *)
(* probability, records); <<>> is "no prediction".                             *)
EXTENDS Pred, SequencesExt

Leaf(n) == n.ch = <<>>

Entry(l, p, rc) == [l |-> l, p |-> p, rc |-> rc]
Q(r) == R(r.n, r.d)

\* The node's own prediction.  classes: the target's declared classes (literals).
Own(n, fn, classes) ==
  IF fn = "regression" THEN << Entry(n.score, ROne, Q(n.rc)) >>
  ELSE IF n.dist # <<>> THEN
    LET total == RSumSeq([i \in 1..Len(n.dist) |-> Q(n.dist[i].rc)])
    IN  [i \in 1..Len(n.dist) |->
           Entry(n.dist[i].v,
                 IF n.dist[i].prob # <<>> THEN Q(n.dist[i].prob[1])
                                          ELSE RDiv(Q(n.dist[i].rc), total),
                 Q(n.dist[i].rc))]
  ELSE IF n.score.s = "" THEN <<>>
  ELSE LET own == Entry(n.score, ROne, Q(n.rc))
           declared == [i \in 1..Len(classes) |->
                          IF classes[i].s = n.score.s THEN own
                          ELSE Entry(classes[i], RZero, RZero)]
       IN  IF \E i \in 1..Len(classes) : classes[i].s = n.score.s THEN declared
           ELSE Append(declared, own)

\* The node's prediction when no child is true.
Stop(n, m, classes) ==
  IF ~Leaf(n) /\ m.ntc = "returnNullPrediction" THEN <<>> ELSE Own(n, m.fn, classes)

Penalty(m) == IF m.pen = <<>> THEN ROne ELSE Q(m.pen[1])

Penalise(pred, r) == [i \in 1..Len(pred) |-> [pred[i] EXCEPT !.p = RMul(@, r)]]

Least(S) == IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : i <= j
\* index of the first child whose predicate is not FALSE / is TRUE (0: none)
FirstNotFalse(res) == Least({i \in DOMAIN res : res[i] # "F"})
FirstTrue(res)     == Least({i \in DOMAIN res : res[i] = "T"})
DefaultIdx(n)      == Least({i \in 1..Len(n.ch) : n.dc # "" /\ n.ch[i].id = n.dc})

\* class literals of a sequence of predictions, in order of first appearance
RECURSIVE Classes(_, _)
Classes(preds, acc) ==
  IF preds = <<>> THEN acc
  ELSE IF preds[1] = <<>> THEN Classes(Tail(preds), acc)
  ELSE LET e == preds[1][1].l IN
       Classes(<<Tail(preds[1])>> \o Tail(preds),
               IF \E i \in 1..Len(acc) : acc[i].s = e.s THEN acc ELSE Append(acc, e))

PSum(pred, c) == RSumSeq([i \in 1..Len(pred) |-> IF pred[i].l.s = c THEN pred[i].p ELSE RZero])
CSum(pred, c) == RSumSeq([i \in 1..Len(pred) |-> IF pred[i].l.s = c THEN pred[i].rc ELSE RZero])

\* weightedConfidence: average of the predictions weighted by the nodes' record counts
Weighted(preds, weights) ==
  LET total == RSumSeq(weights)
      cs    == Classes(preds, <<>>)
  IN  [i \in 1..Len(cs) |->
         Entry(cs[i],
               RDiv(RSumSeq([j \in 1..Len(preds) |-> RMul(weights[j], PSum(preds[j], cs[i].s))]), total),
               RSumSeq([j \in 1..Len(preds) |-> CSum(preds[j], cs[i].s)]))]

\* aggregateNodes: pooled record counts
Pooled(preds) ==
  LET cs    == Classes(preds, <<>>)
      cnt   == [i \in 1..Len(cs) |-> RSumSeq([j \in 1..Len(preds) |-> CSum(preds[j], cs[i].s)])]
      total == RSumSeq(cnt)
  IN  [i \in 1..Len(cs) |-> Entry(cs[i], RDiv(cnt[i], total), cnt[i])]

ChildRes(n, row, types) == [i \in 1..Len(n.ch) |-> EvalPred(n.ch[i].pred, row, types)]

\* the children that take part when the missing value strategy combines several
NotFalse(n, res) == SelectSeq([i \in 1..Len(n.ch) |-> i], LAMBDA i : res[i] # "F")

RECURSIVE Descend(_, _, _, _, _)
\* The prediction below node n once it has been reached.
Descend(n, m, row, types, classes) ==
  LET res == ChildRes(n, row, types)
      k   == IF m.strat \in {"", "none"} THEN FirstTrue(res) ELSE FirstNotFalse(res)
      D(i) == Descend(n.ch[i], m, row, types, classes)
  IN
  IF k = 0 THEN Stop(n, m, classes)
  ELSE IF res[k] = "T" THEN D(k)
  ELSE CASE m.strat = "nullPrediction" -> <<>>
         [] m.strat = "lastPrediction" -> Own(n, m.fn, classes)
         [] m.strat = "defaultChild"   ->
              LET i == DefaultIdx(n) IN IF i = 0 THEN <<>> ELSE Penalise(D(i), Penalty(m))
         [] OTHER ->
              LET idx   == NotFalse(n, res)
                  preds == [j \in 1..Len(idx) |-> D(idx[j])]
              IN  IF m.strat = "weightedConfidence"
                  THEN Weighted(preds, [j \in 1..Len(idx) |-> Q(n.ch[idx[j]].rc)])
                  ELSE Pooled(preds)

TreePrediction(m, row, types, classes) ==
  IF EvalPred(m.root.pred, row, types) # "T" THEN <<>>
  ELSE Descend(m.root, m, row, types, classes)

RECURSIVE NodeOk(_, _)
NodeOk(n, types) == PredOk(n.pred, types) /\ \A i \in 1..Len(n.ch) : NodeOk(n.ch[i], types)

\* -- the domain in which the properties determine the outcome ---------------
RECURSIVE NodeDef(_, _, _)
NodeDef(n, row, types) == PredDef(n.pred, row, types) /\ \A i \in 1..Len(n.ch) : NodeDef(n.ch[i], row, types)

Distinct(f(_), s) == \A i, j \in 1..Len(s) : i # j => f(s[i]) # f(s[j])
ClassOf(e) == e.v.s

\* distributions are proper: distinct classes, a probability or a positive total
RECURSIVE DistOk(_)
DistOk(n) ==
  /\ Distinct(ClassOf, n.dist)
  /\ n.dist # <<>> =>
       \/ \A i \in 1..Len(n.dist) : n.dist[i].prob # <<>>
       \/ RLt(RZero, RSumSeq([i \in 1..Len(n.dist) |-> Q(n.dist[i].rc)]))
  /\ \A i \in 1..Len(n.ch) : DistOk(n.ch[i])

\* Combining children needs every combined child to predict something and a
\* positive total of weights or counts; it is undefined for regression trees.
RECURSIVE CombineOk(_, _, _, _, _)
CombineOk(n, m, row, types, classes) ==
  LET res == ChildRes(n, row, types)
      k   == FirstNotFalse(res)
      D(i) == Descend(n.ch[i], m, row, types, classes)
  IN
  \/ m.strat \notin {"weightedConfidence", "aggregateNodes"}
  \/ k = 0
  \/ res[k] = "T" /\ CombineOk(n.ch[k], m, row, types, classes)
  \/ /\ res[k] = "U"
     /\ m.fn = "classification"
     /\ \A i \in DOMAIN res : res[i] # "F" =>
          /\ CombineOk(n.ch[i], m, row, types, classes)
          /\ D(i) # <<>>
     /\ \E i \in DOMAIN res : res[i] # "F" /\
          IF m.strat = "weightedConfidence" THEN n.ch[i].rc.n > 0
          ELSE RLt(RZero, RSumSeq([j \in 1..Len(D(i)) |-> D(i)[j].rc]))

TreeDef(m, row, types, classes) ==
  /\ NodeDef(m.root, row, types)
  /\ DistOk(m.root)
  /\ EvalPred(m.root.pred, row, types) = "T" => CombineOk(m.root, m, row, types, classes)

\* Highest probability, and the labels having it (the first one is the answer
\* unless the probabilities come from averaging, where floating point may
\* separate exact ties).
BestP(pred) == CHOOSE r \in {pred[i].p : i \in 1..Len(pred)} :
                 \A i \in 1..Len(pred) : RLe(pred[i].p, r)
BestLabels(pred) ==
  LET b  == BestP(pred)
      is == SelectSeq([i \in 1..Len(pred) |-> i], LAMBDA i : REq(pred[i].p, b))
  IN [j \in 1..Len(is) |-> pred[is[j]].l]
=============================================================================
