------------------------------- MODULE MC_Expr -------------------------------
(* Every expression of depth one over two fields and a constant, those of depth    *)
(* two over a representative set, value maps over one and two fields, and lists of  *)
(* three derived fields spread over every place that may hold them.               *)
EXTENDS Engine, Docs
CONSTANT Part

Two  == Const(IntL(2))
Leafs == {Ref("a"), Ref("b"), Two}
Test(x) == {App("isMissing", <<x>>), App("isNotMissing", <<x>>)}
Tests(S) == UNION {Test(x) : x \in S}

D1 == {App(op, <<x, y>>) : op \in Arith, x \in Leafs, y \in Leafs}
      \cup {App("sum", s) : s \in UpTo(Leafs, 3)}
      \cup {App("if", <<t, x, y>>) : t \in Tests(Leafs), x \in Leafs, y \in Leafs}
      \cup Leafs \cup {Const(NumL(-5, 4, "-1.25")), Const(NumL(3, 1, "3e0"))}

\* representatives for nesting
Rep == {App("-", <<Ref("a"), Ref("b")>>), App("/", <<Ref("a"), Two>>), App("*", <<Ref("b"), Ref("b")>>), App("sum", <<Ref("a"), Ref("b")>>),
        App("sum", <<Ref("b"), Two>>), App("if", <<App("isMissing", <<Ref("a")>>), Ref("b"), Ref("a")>>), App("if", <<App("isNotMissing", <<Ref("b")>>), Two, Ref("a")>>)}
RepL == Rep \cup Leafs
D2 == {App(op, <<x, y>>) : op \in Arith, x \in RepL, y \in RepL}
      \cup {App("sum", <<x, y>>) : x \in RepL, y \in RepL}
      \cup {App("sum", <<x, Ref("b"), y>>) : x \in Rep, y \in Rep}
      \cup {App("if", <<t, x, y>>) : t \in Tests(Rep), x \in {Two, Ref("a"), App("-", <<Ref("a"), Ref("b")>>), App("sum", <<Ref("a"), Ref("b")>>)}, y \in {Two, Ref("b"), App("/", <<Ref("b"), Two>>)}}
      \cup {App("if", <<t, App("if", <<u, Two, Ref("a")>>), App("if", <<u, Ref("b"), Two>>)>>) : t \in Tests({Ref("a"), Ref("b")}), u \in Tests(Rep)}

DD == <<Data("a", "double"), Data("b", "double"), Data("s", "string"), Data("u", "string")>>
Schema == <<Active("a"), Active("b"), Active("s"), Active("u")>>
Show(f) == <<TableR(RZero, "", <<NumT(f, ROne, 1)>>)>>
OutV == <<[name |-> "out", feature |-> "predictedValue", value |-> ""]>>
RegOf(f, lt) == [RegM("regression", Schema, "none", Show(f), OutV) EXCEPT !.lt = lt]
\* a tree telling a missing value, no number, and some texts apart
TreeOf(f, type, lt, lits) ==
  [TreeM("regression", Schema, Node("r", TrueP, IntL(0),
     <<Node("m", Simple(f, "isMissing", NoL), IntL(1), <<>>)>> \o
     [i \in 1..Len(lits) |-> Node("e", Simple(f, "equal", lits[i]), IntL(i + 1), <<>>)])) EXCEPT !.lt = lt]

Vals(S) == SetToSeq({MkRow(<<"a", "b">>, vs) : vs \in Tuples(S, 2)})
Wide == {Gone, NilV, IntV(0), IntV(2), Number("float64", -3, 2, "-1.5"), NumText(3, 1, "3")}
Thin == {Gone, IntV(2), Number("int16", -1, 1, "-1")}

D(x) == DF("d", "continuous", "double", x)
ByReg(x) == MkDoc(DD, <<D(x)>>, RegOf("d", <<>>))
ByLt(x)  == MkDoc(DD, <<>>, RegOf("d", <<D(x)>>))

\* what remains of tests outside if: a boolean derived field
Truths == {Case(MkDoc(DD, <<DF("d", "categorical", "boolean", t)>>, TreeOf("d", "boolean", <<>>, <<BoolL("true", "true"), BoolL("false", "false")>>)), Vals(Wide)) : t \in Tests(RepL)}

One(z) == {Case(ByReg(x), Vals(Wide)) : x \in D1} \cup {Case(ByLt(x), Vals(Wide)) : x \in Rep} \cup Truths
\* any depth-one expression against any representative one
D3(z) == {App(op, <<x, y>>) : op \in Arith \cup {"sum"}, x \in D1, y \in RepL} \cup {App(op, <<y, x>>) : op \in Arith \cup {"sum"}, x \in D1, y \in RepL}
Wider(z) == {Case(ByReg(x), Vals(Thin)) : x \in D3(0)}
Deep(z) == {Case(ByLt(x), Vals(Thin)) : x \in D2}

\* -- value maps -----------------------------------------------------------------
Texts(z) == {TextL("p"), TextL("q"), IntL(1)}
Cells1 == {<<>>, <<[in |-> TextL("a"), out |-> TextL("p")]>>, <<[in |-> IntL(1), out |-> TextL("q")]>>,
           <<[in |-> TextL("a"), out |-> TextL("q")], [in |-> TextL("b"), out |-> TextL("p")]>>,
           <<[in |-> TextL("b")], [in |-> TextL("a"), out |-> IntL(1)]>>,
           <<[out |-> TextL("p")], [in |-> TextL("a"), out |-> TextL("p")]>>}
Map(pairs, rs, type, def) == [e |-> "map", pairs |-> pairs, outcol |-> "out", type |-> type, def |-> def, rows |-> rs]
SRow == SetToSeq({MkRow(<<"s">>, <<v>>) : v \in {Gone, NilV, Text("a"), Text("b"), Text("c"), Text("p"), IntV(1), NumText(1, 1, "1")}})
OneMap ==
  {Case(MkDoc(DD, <<DF("d", "categorical", "string", Map(<<[f |-> "s", col |-> "in"]>>, rs, type, def))>>,
              TreeOf("d", "string", <<>>, <<TextL("p"), TextL("q"), IntL(1), TextL("a"), TextL("b"), TextL("c")>>)), SRow) :
     rs \in Cells1, type \in {"string", ""}, def \in {<<>>, <<TextL("q")>>, <<TextL("z")>>}}
NumMap ==
  {Case(MkDoc(DD, <<>>, RegOf("d", <<D(Map(<<[f |-> "s", col |-> "in"]>>, rs, "double", def))>>)), SRow) :
     rs \in {<<>>, <<[in |-> TextL("a"), out |-> IntL(4)]>>, <<[in |-> TextL("a"), out |-> NumL(1, 2, "0.5")], [in |-> IntL(1), out |-> IntL(7)]>>},
     def \in {<<>>, <<IntL(9)>>, <<NumL(-3, 2, "-1.5")>>}}
Rs2 == {[i |-> x, j |-> y, out |-> z] : x \in {TextL("a"), TextL("b")}, y \in {TextL("a"), TextL("b")}, z \in {TextL("p"), TextL("q")}}
TwoMap ==
  {Case(MkDoc(DD, <<DF("d", "categorical", "string", Map(<<[f |-> "s", col |-> "i"], [f |-> "u", col |-> "j"]>>, rs, "string", def))>>,
              TreeOf("d", "string", <<>>, <<TextL("p"), TextL("q"), TextL("a"), TextL("b")>>)),
        SetToSeq({MkRow(<<"s", "u">>, vs) : vs \in Tuples({Gone, Text("a"), Text("b")}, 2)})) :
     rs \in {<<x>> : x \in Rs2} \cup (Rs2 \X Rs2), def \in {<<>>, <<TextL("q")>>}}
Maps(z) == OneMap \cup NumMap \cup TwoMap

\* -- lists of derived fields over the places that may hold them ---------------------
Steps(i) ==  \* expressions for field number i over the fields before it
  LET prev == IF i = 1 THEN Ref("a") ELSE Ref("d" \o ToString(i - 1)) IN
  {App("+", <<prev, Ref("b")>>), App("sum", <<prev, Ref("a")>>), App("if", <<App("isMissing", <<prev>>), Two, prev>>), App("*", <<prev, Ref("d1")>>)}
Chains3 == {<<DF("d1", "continuous", "double", x), DF("d2", "continuous", "double", y), DF("d3", "continuous", "double", w)>> :
              x \in Steps(1) \ {App("*", <<Ref("a"), Ref("d1")>>)}, y \in Steps(2), w \in Steps(3)}
Sub(l, i, j) == SubSeq(l, i, j)
\* i fields in the dictionary, up to j in the outer model, the rest in the inner one
Place(l, i, j, kind) ==
  LET inner == RegOf("d3", Sub(l, j + 1, 3))
      tree  == [TreeM("regression", Schema, Node("r", TrueP, IntL(0),
                 <<Node("m", Simple("d3", "isMissing", NoL), IntL(1), <<>>), Node("g", Simple("d3", "greaterThan", IntL(3)), IntL(2), <<>>)>>)) EXCEPT !.lt = Sub(l, j + 1, 3)]
      outer(method, m) == [MiningM("regression", Schema, method, <<Segm(TrueP, m)>>, <<>>) EXCEPT !.lt = Sub(l, i + 1, j)]
  IN MkDoc(DD, Sub(l, 1, i),
       CASE kind = "chain" -> outer("modelChain", inner)
         [] kind = "first" -> outer("selectFirst", tree)
         [] OTHER -> [outer("sum", tree) EXCEPT !.outs = <<OutP("total", "")>>])
Lists(z) == {Case(Place(l, p[1], p[2], kind), Vals(Thin)) : l \in Chains3, p \in {<<0, 0>>, <<0, 1>>, <<1, 2>>, <<3, 3>>, <<1, 1>>, <<0, 3>>}, kind \in {"chain", "first", "sum"}}

\* -- if meets only the branch its condition selects; tests of texts ------------------
Odd == {[e |-> "unsup", name |-> "Discretize"], App("pow", <<Ref("a"), Two>>), App("+", <<Ref("a")>>), App("isMissing", <<>>), App("if", <<Ref("a"), Two>>),
        Const(TextL("abc")), [Const(IntL(1)) EXCEPT !.type = "integer"], App("sum", <<Ref("b"), App("max", <<Two>>)>>)}
Lazy == {App("if", <<t, x, o>>) : t \in Tests({Ref("a"), App("-", <<Ref("a"), Ref("b")>>)}), x \in {Ref("b"), Two}, o \in Odd}
        \cup {App("if", <<t, o, x>>) : t \in Tests({Ref("a"), App("-", <<Ref("a"), Ref("b")>>)}), x \in {Ref("b"), Two}, o \in Odd}
Lazier == Lazy \cup {App("sum", <<Ref("a"), x>>) : x \in Lazy} \cup {App("if", <<App("isNotMissing", <<Ref("a")>>), x, Two>>) : x \in Lazy}
SVals == {Gone, NilV, Text(""), Text("a"), Text("0"), IntV(0), BoolV(FALSE)}
SText == SetToSeq({MkRow(<<"s", "b">>, <<v, IntV(3)>>) : v \in SVals})
Lazies(z) ==
  {Case(ByReg(x), Vals(Thin)) : x \in Lazier} \cup {Case(ByLt(x), Vals(Thin)) : x \in Lazy}
  \cup {Case(ByReg(App("if", <<t, Two, Ref("b")>>)), SText) : t \in Test(Ref("s"))}
  \cup {Case(MkDoc(DD, <<DF("d", "categorical", "boolean", t)>>, TreeOf("d", "boolean", <<>>, <<BoolL("true", "true"), BoolL("false", "false")>>)), SText) : t \in Test(Ref("s"))}

\* -- what a derived field is, by its kind and type, to everything that reads fields -----
KVals == {Gone, NilV, NumText(2, 1, "2"), NumText(2, 1, "2.0"), NumText(2, 1, "02"), NumText(3, 2, "1.5"), Text("abc"), Text(""), IntV(2),
          Number("float64", 3, 2, "1.5"), Number("int8", -2, 1, "-2")}
KRows == SetToSeq({MkRow(<<"a", "s">>, <<v, v>>) : v \in KVals})
Ways(f) == {Ref(f), Map(<<[f |-> f, col |-> "in"]>>, <<>>, "", <<>>), App("if", <<App("isMissing", <<Ref(f)>>), Ref(f), Ref(f)>>),
            App("if", <<App("isNotMissing", <<Ref("s")>>), Ref(f), Two>>)}
KLits(type) == IF type = "string" THEN {TextL("2.0"), IntL(2), TextL("abc"), TextL("")} ELSE {IntL(2), NumL(2, 1, "2.0"), IntL(-2)}
Tests1(d, type) ==
  {Simple(d, op, l) : op \in {"equal", "notEqual"} \cup (IF type = "string" THEN {} ELSE {"lessThan", "greaterOrEqual"}),
                      l \in {x \in KLits(type) : type # "integer" \/ x.s # "2.0"}}
  \cup {Simple(d, "isMissing", NoL), Simple(d, "isNotMissing", NoL)}
  \cup {InSet(d, op, <<IntL(2), IntL(7)>>) : op \in {"isIn", "isNotIn"}}
TreeBy(p) == [TreeM("regression", Schema, Node("r", TrueP, IntL(0), <<Node("t", p, IntL(1), <<>>), Node("f", TrueP, IntL(2), <<>>)>>)) EXCEPT !.strat = "nullPrediction"]
Readers(type) ==
  {TreeBy(p) : p \in Tests1("d", type)}
  \cup {RegM("regression", Schema, "none", <<[TableR(ROne, "", <<>>) EXCEPT !.cats = <<CatT("d", v, RInt(4))>>]>>, OutV) : v \in {"2", "2.0", "02", "abc"}}
  \cup {RegM("regression", Schema, "none", Show("d"), OutV)}
  \cup {MiningM("regression", Schema, "selectFirst", <<Segm(Simple("d", "equal", IntL(2)), TreeBy(TrueP)), Segm(TrueP, TreeBy(FalseP))>>, <<>>)}
Kinds(z) ==
  {Case(IF place = "td" THEN MkDoc(DD, <<DF("d", op, type, x)>>, m) ELSE MkDoc(DD, <<>>, [m EXCEPT !.lt = <<DF("d", op, type, x)>>]), KRows) :
     op \in {"continuous", "categorical", "ordinal"}, x \in Ways("a") \cup Ways("s"), place \in {"td", "lt"}, type \in {"double"}, m \in Readers("double")}
  \cup {Case(MkDoc(DD, <<DF("d", op, type, x)>>, m), KRows) :
     op \in {"continuous", "categorical", "ordinal"}, x \in {Ref("a"), Ref("s")}, type \in {"float", "integer"}, m \in Readers("integer")}
  \cup {Case(MkDoc(DD, <<>>, [m EXCEPT !.lt = <<DF("d", op, "string", x)>>]), KRows) :
     op \in {"categorical", "ordinal", "continuous"}, x \in {Ref("a"), Ref("s")}, m \in Readers("string")}

AllCases ==
  CASE Part = "lazy" -> Lazies(0)
    [] Part = "kinds" -> Kinds(0)
    [] Part = "one"  -> One(0)
    [] Part = "two"  -> Deep(0)
    [] Part = "maps" -> Maps(0)
    [] Part = "deep" -> Wider(0)
    [] OTHER         -> Lists(0)
=============================================================================
