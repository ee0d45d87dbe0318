------------------------------- MODULE MC_Dist -------------------------------
(* Every score distribution up to three classes with written and derived          *)
(* probabilities, ties and zeros; every absent distribution with declared classes; *)
(* regression trees with distributions, targets and odd scores.                    *)
EXTENDS Engine, Docs
CONSTANTS Part, Counts, Probs     \* Counts: record counts; Probs: n for n quarters, 9 for unwritten

Quarter(p) == IF p = 9 THEN <<>> ELSE <<R(p, 4)>>
Entries(cl) == {DistE(TextL(cl), n, Quarter(p)) : n \in Counts, p \in Probs}
Dists == {<<>>} \cup {<<e>> : e \in Entries("a")} \cup (Entries("a") \X Entries("b")) \cup (Entries("b") \X Entries("c") \X Entries("a"))
Declared == {<<>>, <<TextL("a"), TextL("b")>>, <<TextL("b"), TextL("c"), TextL("a")>>, <<TextL("z")>>, <<IntL(1), TextL("a")>>}
Scores == {NoL, TextL("a"), TextL("b"), TextL("q"), IntL(1), NumL(3, 2, "1.50"), NumL(-2, 1, "-2e0")}

DD(vals) == <<Data("x", "double"), [name |-> "t", type |-> "string", values |-> vals], Data("y", "double")>>
WithDist(n, d) == [n EXCEPT !.dist = d]
Leaf1(pred, score, d, ch) == [WithDist(Node("n", pred, score, ch), d) EXCEPT !.rc = RInt(5)]
Doc1(fn, vals, schema, root) == MkDoc(DD(vals), <<>>, TreeM(fn, schema, root))
With == <<Active("x"), TargetF("t"), Active("y")>>
Rows1 == <<EmptyRow>>
Rows2 == <<EmptyRow, RowOf("x", IntV(1)), RowOf("x", IntV(0))>>

Small == {<<>>, <<DistE(TextL("a"), 1, <<>>), DistE(TextL("b"), 1, <<>>)>>, <<DistE(TextL("b"), 1, <<>>), DistE(TextL("a"), 3, <<R(1, 2)>>)>>,
          <<DistE(TextL("c"), 2, <<R(1, 8)>>)>>}
TwoLevel ==
  {Leaf1(TrueP, s1, d1, <<Leaf1(Simple("x", "equal", IntL(1)), s2, d2, <<>>)>>) :
     s1 \in Scores, s2 \in Scores, d1 \in Small, d2 \in Small}

AllCases ==
  CASE Part = "dist"   -> {Case(Doc1("classification", <<>>, With, Leaf1(TrueP, NoL, d, <<>>)), Rows1) : d \in Dists}
    [] Part = "absent" -> {Case(Doc1(fn, v, s, Leaf1(TrueP, sc, d, <<>>)), Rows1) :
                             fn \in {"classification", "regression"}, v \in Declared, s \in {With, <<Active("x")>>}, sc \in Scores, d \in Small}
    [] OTHER           -> {Case(Doc1(fn, v, With, t), Rows2) :
                             fn \in {"classification", "regression"}, v \in {<<>>, <<TextL("b"), TextL("q"), TextL("a")>>}, t \in TwoLevel}

\* Shares derived from record counts are proper probabilities.
Share == \A d \in Dists : LET total == RSumSeq([i \in 1..Len(d) |-> Q(d[i].rc)]) IN
           d # <<>> /\ RLt(RZero, total) /\ (\A i \in 1..Len(d) : d[i].prob = <<>>) =>
             REq(ROne, RSumSeq([i \in 1..Len(d) |-> Own([dist |-> d, score |-> NoL, rc |-> RZero], "classification", <<>>)[i].p]))
ASSUME Part # "dist" \/ Share
=============================================================================
