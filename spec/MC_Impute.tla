------------------------------ MODULE MC_Impute ------------------------------
(* Replacements for a number and a text at each of up to three nested models, with *)
(* derived fields at each level, read by predicates, terms and segment gates.      *)
EXTENDS Engine, Docs
CONSTANT Part

DD == <<Data("a", "double"), Data("s", "string"), Data("k", "integer"), Data("b", "boolean")>>
ReplA == {<<>>, <<IntL(2)>>, <<NumL(-1, 2, "-0.5")>>}
ReplS == {<<>>, <<TextL("p")>>}
Sch(ra, rs) == <<[name |-> "a", usage |-> "active", repl |-> ra], [name |-> "s", usage |-> "active", repl |-> rs], Active("k"), Active("b")>>

N(id, p, k) == Node(id, p, IntL(k), <<>>)
Reader(f, schema, lt) ==
  [TreeM("regression", schema, Node("r", TrueP, IntL(0),
     <<N("1", Simple(f, "isMissing", NoL), 1), N("2", Comp("and", <<Simple("s", "equal", TextL("p")), Simple(f, "greaterOrEqual", IntL(2))>>), 2),
       N("3", Simple(f, "lessThan", IntL(0)), 3), N("4", Simple("s", "isMissing", NoL), 4), N("5", InSet("s", "isIn", <<TextL("p")>>), 5)>>)) EXCEPT !.lt = lt]
Adder(f, schema, lt) ==
  [RegM("regression", schema, "none", <<[TableR(RZero, "", <<NumT(f, ROne, 1), NumT("a", RInt(10), 1)>>) EXCEPT !.cats = <<CatT("s", "p", RInt(100))>>]>>,
        <<[name |-> "out", feature |-> "predictedValue", value |-> ""]>>) EXCEPT !.lt = lt]
D(x) == <<DF("d", "continuous", "double", App("+", <<Ref("a"), Const(IntL(x))>>))>>
Orig == <<DF("d", "continuous", "double", App("if", <<App("isMissing", <<Ref("a")>>), Const(IntL(-7)), Ref("a")>>))>>
Ds == {D(1), Orig}

As == {Gone, NilV, IntV(0), Number("float32", 5, 2, "2.5")}
Ss == {Gone, NilV, Text("p"), Text("q")}
Rows == SetToSeq({MkRow(<<"a", "s">>, <<a, s>>) : a \in As, s \in Ss})

Schemas == {Sch(ra, rs) : ra \in ReplA, rs \in ReplS}
Plain == {Sch(<<>>, <<>>), Sch(<<IntL(2)>>, <<>>), Sch(<<IntL(-1)>>, <<TextL("q")>>)}

\* single models
Flat(z) ==
  {Case(MkDoc(DD, <<>>, Reader("a", sc, <<>>)), Rows) : sc \in Schemas}
  \cup {Case(MkDoc(DD, dt, Reader("d", sc, <<>>)), Rows) : sc \in Schemas, dt \in Ds}
  \cup {Case(MkDoc(DD, <<>>, Reader("d", sc, dt)), Rows) : sc \in Schemas, dt \in Ds}
  \cup {Case(MkDoc(DD, dt, Adder("d", sc, <<>>)), Rows) : sc \in Schemas, dt \in Ds}
  \cup {Case(MkDoc(DD, <<>>, Adder("d", sc, dt)), Rows) : sc \in Schemas, dt \in Ds}

Gates == {TrueP, Simple("a", "isNotMissing", NoL), Simple("a", "greaterThan", IntL(1))}
Mine(sc, method, lt, segs) ==
  [MiningM("regression", sc, method, segs, IF method \in {"sum", "average"} THEN <<OutP("total", "")>> ELSE <<>>) EXCEPT !.lt = lt]
Else == Segm(TrueP, TreeM("regression", <<>>, Node("r", TrueP, IntL(50), <<>>)))

\* outer and inner model; the derived field at one of three places
Two(z) ==
  {Case(IF place = "td" THEN MkDoc(DD, dt, Mine(so, m, <<>>, <<Segm(g, Reader("d", si, <<>>)), Else>>))
        ELSE IF place = "outer" THEN MkDoc(DD, <<>>, Mine(so, m, dt, <<Segm(g, Reader("d", si, <<>>)), Else>>))
        ELSE MkDoc(DD, <<>>, Mine(so, m, <<>>, <<Segm(g, Reader("d", si, dt)), Else>>)), Rows) :
     so \in Schemas, si \in Plain, m \in {"selectFirst", "sum"}, place \in {"td", "outer", "inner"}, dt \in Ds, g \in Gates}
\* chains of regressions: what a segment's schema replaces, only that segment sees
Chain(z) ==
  {Case(MkDoc(DD, td, Mine(so, "modelChain", <<>>, <<Segm(TrueP, Reader("a", s1, <<>>)), Segm(g, Adder("a", s2, <<>>))>>)), Rows) :
     so \in Plain, s1 \in Schemas, s2 \in Schemas, g \in Gates, td \in {<<>>}}
\* three levels
Three(z) ==
  {Case(MkDoc(DD, <<>>, Mine(s1, "selectFirst", d1, <<Segm(TrueP, Mine(s2, "average", d2, <<Segm(g, Reader("a", s3, <<>>)), Else>>))>>)), Rows) :
     s1 \in Schemas, s2 \in Plain, s3 \in Plain, g \in Gates, d1 \in {<<>>, Orig}, d2 \in {<<>>}}

\* replacements for an integer and a boolean, read as such
SchB(rk, rb) == <<[name |-> "k", usage |-> "active", repl |-> rk], [name |-> "b", usage |-> "active", repl |-> rb], [name |-> "a", usage |-> "supplementary", repl |-> <<IntL(3)>>]>>
Others(z) ==
  {Case(MkDoc(DD, <<>>, TreeM("regression", SchB(rk, rb), Node("r", TrueP, IntL(0),
       <<N("1", Comp("and", <<Simple("k", "equal", IntL(7)), Simple("b", "equal", BoolL("true", "true"))>>), 1), N("2", Simple("b", "equal", BoolL("false", "false")), 2),
         N("3", Comp("or", <<Simple("k", "isMissing", NoL), Simple("b", "isMissing", NoL)>>), 3), N("4", Simple("a", "equal", IntL(3)), 4)>>))),
       SetToSeq({MkRow(<<"k", "b", "a">>, <<k, b, a>>) : k \in {Gone, NilV, IntV(7), IntV(0)}, b \in {Gone, NilV, BoolV(TRUE), BoolV(FALSE)}, a \in {Gone, IntV(1)}})) :
     rk \in {<<>>, <<IntL(7)>>, <<IntL(0)>>}, rb \in {<<>>, <<BoolL("true", "true")>>, <<BoolL("false", "false")>>}}

AllCases ==
  CASE Part = "flat"  -> Flat(0) \cup Others(0)
    [] Part = "two"   -> Two(0)
    [] Part = "chain" -> Chain(0)
    [] OTHER          -> Three(0)
=============================================================================
