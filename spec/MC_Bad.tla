------------------------------- MODULE MC_Bad --------------------------------
(* Supported documents with one unsupported or inconsistent construct, of every    *)
(* kind, at every place that can hold it.                                         *)
EXTENDS Engine, Docs
CONSTANT Part

DD == <<Data("day", "date"), Data("x", "double"), Data("y", "double"), Data("i", "integer"), Data("s", "string"), Data("b", "boolean"), [name |-> "t", type |-> "string", values |-> <<>>]>>
TypesOfDD == [f \in {"x", "y", "i", "s", "b"} |-> (CHOOSE k \in 1..Len(DD) : DD[k].name = f)]
Sch == <<Active("x"), Active("s"), TargetF("t")>>
Type(f) == IF f \in DOMAIN TypesOfDD THEN DD[TypesOfDD[f]].type ELSE "double"

Repl(s, k, e) == [s EXCEPT ![k] = e]
Drop(s, k) == SubSeq(s, 1, k - 1) \o SubSeq(s, k + 1, Len(s))

\* texts that are almost numbers, or almost true
Near == {TextL(s) : s \in {"4%", "$4", "4.0.0", "4f", "4d", "4L", "1e", "1e+", "0b1", "0o7", "4,0", "1 000", "+-4", "4-", "--4", "e5", ".", "-", "+", "4px", "(4)", "#4", "4;", "4/2",
                            "true", "IV", "4e5.5", "1'000", "0x1F", "1.5e3x", "4=", "x4", "4!", "4*", "[4]", "4:30", "4E", "4_", "_4", "null", "NA", "?", "n/a", "one"}}
NearBool == {TextL(s) : s \in {"on", "2", "-1", "y", "no", "tru", "falsee", "NA"}}

NotOf(type) ==
  CASE type \in {"double", "float"} -> {TextL("abc"), TextL(""), TextL("1 2"), TextL("1,5"), TextL("0x"), TextL("1_0"), TextL("0x1p4")}
    [] type = "integer" -> {TextL("abc"), TextL(""), NumL(3, 2, "1.5")}
    [] type = "boolean" -> {TextL("yes"), TextL("")}
    [] OTHER -> {}

\* -- predicates -------------------------------------------------------------------
RECURSIVE BadPreds(_)
BadPreds(p) ==
  CASE p.p = "simple" ->
         {[p EXCEPT !.op = o] : o \in {"", "equals", "isIn", "lessthan", "EQUAL"}}
         \cup {[p EXCEPT !.f = o] : o \in {"nofield", "X", "", "day"}}
         \cup (IF p.op \in MissingOps THEN {} ELSE {[p EXCEPT !.v = l] : l \in NotOf(Type(p.f))})
         \cup (IF p.f = "x" /\ p.op \notin MissingOps THEN {[p EXCEPT !.v = l] : l \in Near}
               ELSE IF p.f = "b" /\ p.op \notin MissingOps THEN {[p EXCEPT !.v = l] : l \in NearBool} ELSE {})
         \cup (IF Type(p.f) \in {"string", "boolean"} THEN {[p EXCEPT !.op = o] : o \in OrderOps} ELSE {})
    [] p.p = "set" ->
         {[p EXCEPT !.op = o] : o \in {"", "in", "equal", "IsIn"}}
         \cup {[p EXCEPT !.f = "nofield"]}
         \cup {[p EXCEPT !.items = Repl(p.items, k, l)] : k \in 1..Len(p.items), l \in NotOf(Type(p.f)) \ {TextL(""), TextL("1 2")}}
    [] p.p = "comp" ->
         {[p EXCEPT !.op = o] : o \in {"", "nand", "And"}}
         \cup UNION {{[p EXCEPT !.ch = Repl(p.ch, k, q)] : q \in BadPreds(p.ch[k])} : k \in 1..Len(p.ch)}
    [] OTHER -> {Simple("nofield", "equal", IntL(1))}

RECURSIVE BadNodes(_, _)
BadNodes(n, fn) ==
  {[n EXCEPT !.pred = q] : q \in BadPreds(n.pred) \cup {[p |-> "none"]}}
  \cup (IF fn = "regression" THEN {[n EXCEPT !.score = l] : l \in {TextL("high"), NoL, TextL("1.2.3"), TextL("1_0")} \cup Near} ELSE {})
  \cup UNION {{[n EXCEPT !.ch = Repl(n.ch, k, q)] : q \in BadNodes(n.ch[k], fn)} : k \in 1..Len(n.ch)}

\* -- expressions --------------------------------------------------------------------
Kinds == {"NormContinuous", "NormDiscrete", "Discretize", "Lag", "Aggregate", "TextIndex"}
RECURSIVE BadExprs(_)
BadExprs(x) ==
  {[e |-> "unsup", name |-> k] : k \in Kinds}
  \cup CASE x.e = "apply" ->
              {[x EXCEPT !.fn = f] : f \in {"", "pow", "max", "Sum", "==", "IF"}}
              \cup (IF x.fn = "sum" THEN {} ELSE {[x EXCEPT !.args = Append(@, Ref("x"))], [x EXCEPT !.args = SubSeq(@, 1, Len(@) - 1)], [x EXCEPT !.args = <<>>]})
              \cup UNION {{[x EXCEPT !.args = Repl(x.args, k, q)] : q \in BadExprs(x.args[k])} : k \in 1..Len(x.args)}
         [] x.e = "const" ->
              {[x EXCEPT !.type = t] : t \in {"", "integer", "string", "boolean", "float"}} \cup {[x EXCEPT !.v = l] : l \in {TextL("abc"), TextL(""), TextL("1,5"),  TextL("1_0"), TextL("0x1p4")} \cup Near} \cup {[x EXCEPT !.v = TextL(""), !.type = ""]}
         [] x.e = "map" -> {[x EXCEPT !.type = "double", !.def = <<TextL("abc")>>]}
         [] OTHER -> {}
BadFields(l) ==
  UNION {{Repl(l, k, [l[k] EXCEPT !.expr = q]) : q \in BadExprs(l[k].expr) \cup {[e |-> "unsup", name |-> "none"]}} : k \in 1..Len(l)}

\* -- models ---------------------------------------------------------------------------
BadFns == {"", "clustering", "sequences", "associationRules", "timeSeries", "mixed", "Regression"}
Features == {"decision", "transformedValue", "residual", "entityId", "affinity", "Probability"}
Unsupported == {"AssociationModel", "BaselineModel", "BayesianNetworkModel", "ClusteringModel", "GaussianProcessModel",
  "GeneralRegressionModel", "NaiveBayesModel", "NearestNeighborModel", "NeuralNetwork", "RuleSetModel", "Scorecard", "SequenceModel",
  "SupportVectorMachineModel", "TextModel", "TimeSeriesModel"}
BadOuts(os, S) == UNION {{Repl(os, k, [os[k] EXCEPT !.feature = f]) : f \in S} : k \in 1..Len(os)}

RECURSIVE BadModels(_)
BadModels(m) ==
  {[m EXCEPT !.fn = f] : f \in BadFns}
  \cup {[kind |-> "unsup", name |-> n] : n \in Unsupported}
  \cup {[m EXCEPT !.lt = l] : l \in BadFields(m.lt)}
  \cup CASE m.kind = "tree" -> {[m EXCEPT !.root = n] : n \in BadNodes(m.root, m.fn)}
         [] m.kind = "reg" ->
              {[m EXCEPT !.norm = n] : n \in {"probit", "loglog", "Softmax", "NONE"}}
              \cup (IF m.fn = "classification" /\ Len(m.tables) > 2 THEN {[m EXCEPT !.norm = n] : n \in {"", "none", "logit", "exp", "cloglog"}} ELSE {})
              \cup {[m EXCEPT !.outs = os] : os \in BadOuts(m.outs, Features \cup (IF m.fn = "regression" THEN {} ELSE {"predictedValue"}))}
              \cup {[m EXCEPT !.tables[k].terms = TRUE] : k \in 1..Len(m.tables)}
              \cup (IF m.fn = "regression"
                    THEN {[m EXCEPT !.tables = <<>>], [m EXCEPT !.tables = @ \o @], [m EXCEPT !.outs = <<>>], [m EXCEPT !.outs = @ \o <<[@[1] EXCEPT !.name = "more"]>>]}
                    ELSE {})
         [] m.kind = "mining" ->
              {[m EXCEPT !.method = x] : x \in {"max", "median", "majorityVote", "weightedAverage", "selectAll", "weightedMajorityVote", "Sum"}}
              \cup {[m EXCEPT !.outs = os] : os \in BadOuts(m.outs, Features \cup {"predictedValue"})}
              \cup UNION {{[m EXCEPT !.segs[k].models = <<>>], [m EXCEPT !.segs[k].models = @ \o @], [m EXCEPT !.segs[k].preds = @ \o <<TrueP>>]}
                          \cup {[m EXCEPT !.segs[k].preds = <<q>>] : q \in BadPreds(SegPred(m.segs[k]))}
                          \cup {[m EXCEPT !.segs[k].models = <<q>>] : q \in BadModels(m.segs[k].models[1])} : k \in 1..Len(m.segs)}
         [] OTHER -> {}

\* -- what is damaged ---------------------------------------------------------------------
Expr1 == App("if", <<App("isMissing", <<Ref("x")>>), App("sum", <<Ref("y"), Const(IntL(2))>>), App("*", <<App("-", <<Ref("x"), Ref("y")>>), Const(NumL(1, 2, "0.5"))>>)>>)
Expr2 == [e |-> "map", pairs |-> <<[f |-> "s", col |-> "in"]>>, outcol |-> "out", type |-> "string", def |-> <<TextL("z")>>, rows |-> <<[in |-> TextL("a"), out |-> TextL("q")]>>]
Td == <<DF("d", "continuous", "double", Expr1), DF("e", "categorical", "string", Expr2)>>
Preds == Comp("or", <<Comp("and", <<Simple("x", "greaterThan", IntL(1)), Simple("s", "equal", TextL("a"))>>), InSet("i", "isIn", <<IntL(1), IntL(2)>>),
                      Comp("surrogate", <<Simple("b", "equal", BoolL("true", "true")), Simple("s", "isMissing", NoL)>>), FalseP>>)
Cls == TreeM("classification", Sch, Node("r", TrueP, TextL("no"), <<Node("1", Preds, TextL("a"), <<Node("2", InSet("s", "isNotIn", <<TextL("a")>>), TextL("b"), <<>>)>>),
                                                                Node("3", Simple("i", "lessOrEqual", IntL(3)), TextL("c"), <<>>)>>))
Sco == TreeM("regression", Sch, Node("r", TrueP, IntL(1), <<Node("1", Simple("x", "lessThan", NumL(3, 2, "1.5")), IntL(2), <<>>), Node("2", TrueP, NumL(-1, 2, "-0.5"), <<>>)>>))
Lin == [RegM("regression", Sch, "logit", <<TableR(ROne, "", <<NumT("x", ROne, 1)>>)>>, <<[name |-> "out", feature |-> "predictedValue", value |-> ""]>>) EXCEPT !.lt = <<DF("l", "continuous", "double", App("+", <<Ref("x"), Ref("y")>>))>>]
Bin == RegM("classification", Sch, "softmax", <<TableR(ROne, "a", <<NumT("x", ROne, 1)>>), TableR(RZero, "b", <<>>)>>, <<OutP("pa", "a"), OutP("pb", "b")>>)
Tri == RegM("classification", Sch, "simplemax", <<TableR(ROne, "a", <<NumT("x", ROne, 1)>>), TableR(ROne, "b", <<>>), TableR(RInt(2), "c", <<>>)>>, <<OutP("pc", "c"), OutP("pa", "a"), OutP("pb", "b")>>)
Ens == [MiningM("regression", Sch, "sum", <<Segm(Simple("x", "isNotMissing", NoL), Sco), Segm(TrueP, Sco)>>, <<OutP("total", "")>>) EXCEPT !.lt = <<DF("m", "continuous", "double", App("sum", <<Ref("x")>>))>>]
Chn == MiningM("classification", Sch, "modelChain", <<Segm(TrueP, [MiningM("regression", Sch, "average", <<Segm(TrueP, Sco)>>, <<OutP("mean", "")>>) EXCEPT !.lt = <<>>]),
                                                    Segm(Simple("x", "greaterOrEqual", IntL(0)), Bin)>>, <<>>)
Sel == MiningM("classification", Sch, "selectFirst", <<Segm(FalseP, Lin), Segm(Comp("and", <<TrueP, Simple("i", "isMissing", NoL)>>), Cls), Segm(TrueP, MiningM("regression", Sch, "", <<Segm(TrueP, Sco)>>, <<OutP("o", "")>>))>>, <<>>)

Rows3 == <<EmptyRow, MkRow(<<"x", "y", "i", "s", "b">>, <<IntV(2), IntV(1), IntV(1), Text("a"), BoolV(TRUE)>>),
           MkRow(<<"x", "y", "i", "s", "b">>, <<IntV(-1), NilV, IntV(9), Text("zz"), BoolV(FALSE)>>)>>

Good(z) == {Case(MkDoc(DD, td, m), Rows3) : td \in {<<>>, Td}, m \in {Cls, Sco, Lin, Bin, Tri, Ens, Chn, Sel}}
Models(S) == {Case(MkDoc(DD, <<>>, b), Rows3) : b \in UNION {BadModels(m) : m \in S}}
Fields(S) == {Case(MkDoc(DD, l, m), Rows3) : l \in BadFields(Td), m \in S}

AllCases ==
  CASE Part = "single"  -> Models({Cls, Sco, Lin, Bin, Tri})
    [] Part = "fields"  -> Fields({Sco, Lin, Ens})
    [] OTHER            -> Models({Ens, Chn, Sel}) \cup Good(0)

=============================================================================
