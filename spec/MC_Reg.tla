------------------------------- MODULE MC_Reg --------------------------------
(* Every regression table up to two numeric and two categorical terms, under      *)
(* every link function; every pair and triple of small tables for classification,  *)
(* with the outputs declared in every order.                                      *)
EXTENDS Engine, Docs
CONSTANT Part

Coefs == {2, -1}
Exps == IF Part = "full" THEN {-1, 0, 1, 2, 3} ELSE {-1, 0, 1, 2}

DD == <<Data("x", "double"), Data("y", "double"), Data("s", "string")>>
Schema == <<Active("x"), Active("y"), Active("s")>>
Doc1(fn, norm, tables, outs) == MkDoc(DD, <<>>, RegM(fn, Schema, norm, tables, outs))
Table(b, cat, nums, cats) == [TableR(RInt(b), cat, nums) EXCEPT !.cats = cats]

Xs == {Gone, NilV, IntV(0), IntV(3), IntV(-2), Number("float64", 1, 2, "0.5")}
Ys == {Gone, Number("uint8", 2, 1, "2"), NumText(-1, 1, "-1.0")}
Ss == {Gone, NilV, Text("a"), Text("b"), Text("c")}
RowsOf(fields, S, T, U) ==
  SetToSeq({MkRow(<<"x", "y", "s">>, <<x, y, s>>) :
    x \in IF "x" \in fields THEN S ELSE {Gone}, y \in IF "y" \in fields THEN T ELSE {Gone}, s \in IF "s" \in fields THEN U ELSE {Gone}})
FieldsOf(ts) == UNION {TermFields(ts[i]) : i \in 1..Len(ts)}

Nums(f) == {NumT(f, R(k, 2), e) : k \in Coefs, e \in Exps}
Cats == {<<>>, <<CatT("s", "a", RInt(2))>>, <<CatT("s", "b", RInt(-1))>>,
         <<CatT("s", "a", RInt(2)), CatT("s", "b", RInt(5))>>, <<CatT("s", "a", RInt(1)), CatT("s", "a", R(1, 2))>>}
NumLists == {<<>>} \cup {<<n>> : n \in Nums("x")} \cup (Nums("x") \X Nums("y")) \cup (Nums("x") \X Nums("x"))

Single(z) ==
  {Case(Doc1("regression", norm, <<t>>, <<[name |-> "out", feature |-> "predictedValue", value |-> ""]>>), RowsOf(TermFields(t), Xs, Ys, Ss)) :
     norm \in Links \cup {""},
     t \in {Table(b, "", ns, cs) : b \in {0, -1}, ns \in NumLists, cs \in Cats}}

\* categorical terms only with few numeric ones, to keep the number of documents down
SingleSmall(z) ==
  {cs \in Single(z) : Len(cs.doc.model.tables[1].nums) <= 1 \/ cs.doc.model.tables[1].cats = <<>>}

\* -- classification --------------------------------------------------------------
Perms(n) == {f \in [1..n -> 1..n] : \A i, j \in 1..n : i # j => f[i] # f[j]}
Cls == <<"a", "b", "c">>
\* outputs for some of the categories, one of them for the same one as another
Partial(n) == {<<OutP("q", Cls[n])>>, <<OutP("q", Cls[n]), OutP("r", Cls[1]), OutP("s", Cls[n])>>, <<OutP("q", Cls[1]), OutP("r", Cls[1])>>}
Outs(n, perm) == [i \in 1..n |-> OutP("p" \o ToString(perm[i]), Cls[perm[i]])]
TermSets == {<<>>, <<NumT("x", ROne, 1)>>, <<NumT("x", R(-1, 2), 1), NumT("y", ROne, 1)>>, <<NumT("x", RInt(400), 1)>>, <<NumT("y", RInt(-2), 2)>>}
SmallTables(cat) == {Table(b, cat, ns, <<>>) : b \in {0, 2}, ns \in TermSets}
Norm2 == {"", "none", "logit", "softmax", "exp", "cloglog", "cauchit"}
Binary(z) ==
  {Case(Doc1("classification", norm, ts, os), RowsOf(FieldsOf(ts), Xs, Ys, {Gone})) :
     norm \in Norm2, os \in {Outs(2, p) : p \in Perms(2)} \cup Partial(2),
     ts \in {<<t, Table(0, "b", <<>>, <<>>)>> : t \in SmallTables("a") \cup {Table(1, "a", <<NumT("x", ROne, 1)>>, c) : c \in Cats}}}
Part3(os) ==
  {Case(Doc1("classification", norm, ts, os), RowsOf(FieldsOf(ts), Xs, Ys, {Gone})) :
     norm \in {"softmax", "simplemax"},
     ts \in SmallTables("a") \X {t \in SmallTables("b") : t.intercept.n = 2} \X {t \in SmallTables("c") : t.intercept.n = 0}}
Multi(z) == Part3(Outs(3, <<1, 2, 3>>)) \cup Part3(Outs(3, <<3, 1, 2>>))
MultiPartial(z) == UNION {{c \in Part3(os) : c.doc.model.tables[1].nums # <<>> /\ c.doc.model.tables[2].nums # <<>>} : os \in Partial(3)}
Four(z) ==
  {Case(Doc1("classification", norm, ts, [i \in 1..4 |-> OutP("p" \o ToString(i), ToString(i))]), RowsOf(FieldsOf(ts), Xs, Ys, {Gone})) :
     norm \in {"softmax", "simplemax", "logit", "none", ""},
     ts \in {[i \in 1..4 |-> Table(f[i], ToString(i), IF i = j THEN <<NumT("x", ROne, 1)>> ELSE <<>>, <<>>)] : f \in [1..4 -> {0, 1}], j \in 1..4}}

AllCases ==
  CASE Part = "single" -> SingleSmall(0)
    [] Part = "full"   -> Single(0)
    [] Part = "binary" -> Binary(0)
    [] Part = "multi"  -> Multi(0)
    [] Part = "some"   -> MultiPartial(0)
    [] OTHER           -> Four(0)
=============================================================================
