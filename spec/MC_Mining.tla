------------------------------ MODULE MC_Mining ------------------------------
(* Ensembles of up to Size segments, every one selected, not selected or unknown,  *)
(* with every kind of rescaling, nested ensembles, and chains whose segments read   *)
(* and are gated by what earlier segments produced.                               *)
EXTENDS Engine, Docs
CONSTANTS Part, Size

G(i) == "g" \o ToString(i)
Gates(n) == [i \in 1..n |-> G(i)]
DD(n) == <<Data("x", "double"), [name |-> "t", type |-> "string", values |-> <<TextL("a"), TextL("b")>>]>> \o [i \in 1..n |-> Data(G(i), "double")]
Sch(n) == <<Active("x")>> \o [i \in 1..n |-> Active(G(i))]
Opened(i) == Simple(G(i), "equal", IntL(1))
Rows(n) == SetToSeq({MkRow(Gates(n), vs) : vs \in Tuples({IntV(1), IntV(0), Gone}, n)})

Pow == <<1, 10, 100, 1000, 10000>>
ScoreTree(i, n) == TreeM("regression", Sch(n), Node("r", TrueP, IntL(Pow[i]), <<Node("c", Simple("x", "isNotMissing", NoL), IntL(-1), <<>>)>>))
ClassTree(i, n) ==
  TreeM("classification", <<TargetF("t")>> \o Sch(n),
    [Node("r", TrueP, NoL, <<>>) EXCEPT !.dist = <<DistE(TextL("a"), i, <<>>), DistE(TextL("b"), IF i = 2 THEN 2 ELSE 8 - i, <<>>)>>])

Out(name) == OutP(name, "")
Tgt(name, f, k) == [field |-> name, factor |-> f, const |-> k]
Factor == {<<>>, <<RInt(2)>>, <<R(-1, 2)>>}
Konst  == {<<>>, <<RInt(3)>>}
Targets1 == {<<>>} \cup {<<Tgt("total", f, k)>> : f \in Factor, k \in Konst}

Sum(n, fn, method, tree(_, _), outs, targets) ==
  [MiningM(fn, Sch(n), method, [i \in 1..n |-> Segm(Opened(i), tree(i, n))], outs) EXCEPT !.targets = targets]
Ensembles(z) ==
  {Case(MkDoc(DD(n), <<>>, Sum(n, "regression", m, ScoreTree, <<Out("total")>>, tg)), Rows(n)) :
     n \in 0..Size, m \in {"", "sum", "average"}, tg \in Targets1}
  \cup
  {Case(MkDoc(DD(n), <<>>, Sum(n, "regression", m, ScoreTree, outs, tg)), Rows(n)) :
     n \in 0..2, m \in {"sum", "average"}, outs \in {<<>>, <<Out("one"), Out("two")>>, <<Out("total"), Out("other")>>}, tg \in {<<Tgt("two", <<RInt(2)>>, <<RInt(3)>>)>>, <<Tgt("total", <<>>, <<>>), Tgt("one", <<RInt(4)>>, <<>>)>>}}
  \cup
  {Case(MkDoc(DD(n), <<>>, Sum(n, "classification", m, ClassTree, outs, tg)), Rows(n)) :
     n \in 0..Size, m \in {"", "sum", "average"},
     outs \in {<<Out("probability(a)")>>, <<Out("probability(b)"), Out("probability(a)")>>},
     tg \in {<<>>, <<Tgt("probability(b)", <<RInt(2)>>, <<RInt(3)>>)>>}}

\* ensembles inside ensembles: the inner one must answer under the name "score"
InnerOf(k, n, m) ==
  [MiningM("regression", Sch(n), m, [i \in 1..2 |-> Segm(Opened(i + k), ScoreTree(i + k, n))], <<Out("score")>>) EXCEPT
     !.targets = IF m = "average" THEN <<Tgt("score", <<RInt(3)>>, <<RInt(7)>>)>> ELSE <<>>]
Nests(z) ==
  {Case(MkDoc(DD(4), <<>>, [MiningM("regression", Sch(4), m,
       <<Segm(Opened(1), InnerOf(1, 4, mi)), Segm(TrueP, ScoreTree(4, 4)), Segm(Opened(4), InnerOf(0, 4, mj))>>, <<Out("total")>>) EXCEPT !.targets = tg]), Rows(4)) :
     m \in {"sum", "average"}, mi \in {"", "average"}, mj \in {"sum", "average"}, tg \in {<<>>, <<Tgt("total", <<R(1, 2)>>, <<RInt(1)>>)>>}}

-----------------------------------------------------------------------------
\* -- select first and chains -------------------------------------------------------
Firsts(z) ==
  {Case(MkDoc(DD(n), <<>>, MiningM("regression", Sch(n), "selectFirst", [i \in 1..n |-> Segm(IF i = k THEN TrueP ELSE Opened(i), ScoreTree(i, n))], <<>>)), Rows(n)) :
     n \in 0..Size, k \in 0..Size}
  \cup {Case(MkDoc(DD(n), <<>>, MiningM("classification", Sch(n), "selectFirst", [i \in 1..n |-> Segm(IF i = k THEN FalseP ELSE Opened(i), ClassTree(i, n))], <<>>)), Rows(n)) :
     n \in 1..Size, k \in 0..1}
  \cup \* a selected segment without prediction is the result all the same
  {Case(MkDoc(DD(2), <<>>, MiningM("regression", Sch(2), "selectFirst",
        <<Segm(Opened(1), TreeM("regression", Sch(2), Node("r", Opened(2), IntL(5), <<>>))), Segm(TrueP, ScoreTree(2, 2))>>, <<>>)), Rows(2))}

DDc == DD(3) \o <<Data("v", "double"), Data("w", "double")>>
Ren(f) == <<[name |-> f, feature |-> "predictedValue", value |-> ""]>>
\* segments of a chain: each sets v or w from what it sees, or scores a tree on it
Lin(out, b, ts) == RegM("regression", <<>>, "none", <<TableR(RInt(b), "", ts)>>, Ren(out))
Links4 ==
  {Lin("v", 1, <<>>), Lin("v", 0, <<NumT("v", RInt(2), 1)>>), Lin("w", 5, <<NumT("v", ROne, 1)>>), Lin("v", 1, <<NumT("w", RInt(3), 1), NumT("x", ROne, 1)>>),
   TreeM("regression", <<>>, Node("r", TrueP, IntL(20), <<Node("h", Simple("v", "greaterThan", IntL(2)), IntL(30), <<>>), Node("m", Simple("v", "isMissing", NoL), IntL(40), <<>>)>>))}
LastOnes ==
  {Lin("w", 0, <<NumT("v", ROne, 1), NumT("w", RInt(100), 1)>>), Lin("out", 1, <<NumT("score", ROne, 1)>>), Lin("out", 0, <<NumT("x", ROne, 1)>>),
   TreeM("classification", <<TargetF("t")>>, Node("r", TrueP, TextL("a"), <<Node("h", Simple("v", "lessThan", IntL(3)), TextL("b"), <<>>)>>))}
ChainRows == SetToSeq({MkRow(<<"g1", "g2", "x", "v">>, vs) : vs \in {IntV(1), IntV(0)} \X {IntV(1), Gone} \X {Gone, IntV(2)} \X {Gone, IntV(10)}})
ThirdGate == {TrueP, Simple("v", "greaterThan", IntL(2)), Simple("w", "isNotMissing", NoL), FalseP}
Chains(z) ==
  {Case(MkDoc(DDc, <<>>, MiningM("regression", <<>>, "modelChain", <<Segm(Opened(1), a), Segm(Opened(2), b), Segm(g, c)>>, <<>>)), ChainRows) :
     a \in Links4, b \in Links4, c \in LastOnes, g \in ThirdGate}
\* derived fields inside a chain's segments read earlier outputs; a softmax only ends a chain
Ends(z) ==
  {Case(MkDoc(DDc, <<>>, MiningM("regression", <<>>, "modelChain",
        <<Segm(Opened(1), a), Segm(g, [c EXCEPT !.lt = <<DF("d", "continuous", "double", App("sum", <<Ref("v"), Ref("w"), Ref("x")>>))>>, !.tables = <<TableR(RZero, "", <<NumT("d", ROne, 1)>>)>>])>>, <<>>)), ChainRows) :
     a \in Links4, c \in {Lin("o", 0, <<>>)}, g \in ThirdGate}
  \cup
  {Case(MkDoc(DDc, <<>>, MiningM("classification", <<>>, "modelChain",
        <<Segm(TrueP, a), Segm(Opened(1), RegM("classification", <<>>, norm, <<TableR(RZero, "a", <<NumT("v", ROne, 1)>>), TableR(RZero, "b", <<>>)>>, <<OutP("pa", "a"), OutP("pb", "b")>>)),
          Segm(g, b)>>, <<>>)), ChainRows) :
     a \in Links4, norm \in {"logit", "none"}, g \in {FalseP, Opened(2)}, b \in {Lin("z", 0, <<NumT("pa", ROne, 1)>>), Lin("z", 0, <<NumT("pb", ROne, 1)>>)}}

AllCases ==
  CASE Part = "sum"    -> Ensembles(0)
    [] Part = "nest"   -> Nests(0)
    [] Part = "first"  -> Firsts(0)
    [] Part = "chain"  -> Chains(0)
    [] OTHER           -> Ends(0)
=============================================================================
