------------------------------- MODULE MC_Tree -------------------------------
(* Every tree of up to Size nodes below the root, every strategy, every choice of *)
(* default children, and every way for its predicates to be true, false or         *)
(* unknown.  Every node predicts something of its own.                            *)
EXTENDS Engine, Docs
CONSTANTS Part, Size

RECURSIVE Forests(_)
\* sequences of shapes [ch] with n nodes altogether
Forests(n) ==
  IF n = 0 THEN {<<>>}
  ELSE UNION {{<<[ch |-> f]>> \o g : f \in Forests(k), g \in Forests(n - 1 - k)} : k \in 0..(n - 1)}

RECURSIVE Count(_)
Count(fs) == IF fs = <<>> THEN 0 ELSE 1 + Count(Head(fs).ch) + Count(Tail(fs))

X(i) == "x" \o ToString(i)
Id(i) == "n" \o ToString(i)
\* node number i (in document order; the root is 0)
Num0(i, ch) ==
  [id |-> Id(i), dc |-> "", score |-> IntL(10 + i), rc |-> RInt(2 * i + 1), pred |-> IF i = 0 THEN TrueP ELSE Simple(X(i), "equal", IntL(1)),
   dist |-> <<DistE(TextL("a"), i + 1, <<>>), DistE(TextL("b"), 3, <<>>)>>, ch |-> ch]
RECURSIVE Grow(_, _)
Grow(fs, i) ==
  IF fs = <<>> THEN <<>>
  ELSE <<Num0(i, Grow(Head(fs).ch, i + 1))>> \o Grow(Tail(fs), i + 1 + Count(Head(fs).ch))
Root(fs) == Num0(0, Grow(fs, 1))

\* all ways to name default children: none, one of its own children, or a stranger
RECURSIVE WithDefaults(_)
WithDefaults(n) ==
  IF n.ch = <<>> THEN {n}
  ELSE LET subs == [i \in 1..Len(n.ch) |-> WithDefaults(n.ch[i])]
           kids == {f \in [1..Len(n.ch) -> UNION {subs[i] : i \in 1..Len(n.ch)}] : \A i \in 1..Len(n.ch) : f[i] \in subs[i]}
       IN {[n EXCEPT !.ch = k, !.dc = d] : k \in kids, d \in {"", "stranger"} \cup {n.ch[i].id : i \in 1..Len(n.ch)}}

Names(n) == [i \in 1..n |-> X(i)]
Rows(n) == SetToSeq({MkRow(Names(n), vs) : vs \in Tuples({IntV(1), IntV(0), Gone}, n)})
DD(n) == <<[name |-> "t", type |-> "string", values |-> <<TextL("a"), TextL("b")>>]>> \o [i \in 1..n |-> Data(X(i), "double")]
Schema(n) == <<TargetF("t")>> \o [i \in 1..n |-> Active(X(i))]

Tree(n, root, fn, strat, ntc, pen) ==
  Case(MkDoc(DD(n), <<>>, [TreeM(fn, Schema(n), root) EXCEPT !.strat = strat, !.ntc = ntc, !.pen = pen]), Rows(n))

Ntcs == {"", "returnNullPrediction", "returnLastPrediction"}
Half == <<R(1, 2)>>
Fns2 == {"classification", "regression"}

Plain(n) ==
  {Tree(n, Root(fs), fn, strat, ntc, <<>>) :
     fs \in Forests(n), fn \in Fns2, strat \in {"", "none", "nullPrediction", "lastPrediction"}, ntc \in Ntcs}
Combined(n) ==
  {Tree(n, Root(fs), "classification", strat, ntc, <<>>) :
     fs \in Forests(n), strat \in {"weightedConfidence", "aggregateNodes"}, ntc \in Ntcs}
Default(n) ==
  UNION {{Tree(n, root, fn, "defaultChild", ntc, pen) : root \in WithDefaults(Root(fs)), fn \in IF n > 3 THEN {"classification"} ELSE Fns2,
            ntc \in IF n > 3 THEN {"", "returnNullPrediction"} ELSE Ntcs, pen \in IF n > 3 THEN {Half} ELSE {<<>>, Half}}
         : fs \in Forests(n)}

\* Weights: every mixture of children with a count or none, that predict by score or by distribution.
Forms == {<<>>, <<DistE(TextL("a"), 1, <<>>), DistE(TextL("b"), 3, <<>>)>>,
          <<DistE(TextL("b"), 0, <<>>), DistE(TextL("a"), 2, <<>>)>>, <<DistE(TextL("a"), 1, <<>>)>>}
Kid(i, rc, dist, score) == [Num0(i, <<>>) EXCEPT !.rc = RInt(rc), !.dist = dist, !.score = TextL(score)]
Kids(i) == {Kid(i, rc, dist, score) : rc \in {0, 3}, dist \in Forms, score \in {"b"}} \cup {Kid(i, 0, <<>>, "a")}
Weights(n) ==
  {Tree(n, [Num0(0, <<>>) EXCEPT !.ch = ks], "classification", strat, "", <<>>) :
     ks \in {f \in [1..n -> UNION {Kids(i) : i \in 1..n}] : \A i \in 1..n : f[i] \in Kids(i)},
     strat \in {"weightedConfidence", "aggregateNodes"}}

AllCases ==
  UNION {CASE Part = "plain"    -> Plain(n)
           [] Part = "combined" -> Combined(n)
           [] Part = "weights"  -> Weights(n)
           [] OTHER             -> Default(n) : n \in 0..Size}
=============================================================================
