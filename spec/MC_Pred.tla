------------------------------- MODULE MC_Pred -------------------------------
(* Every predicate operator over every field type, literal and way of supplying  *)
(* a value; every set up to two items; every compound predicate up to Width       *)
(* children over true, false, unknown and constant ones, and those nested once.   *)
EXTENDS Engine, Docs
CONSTANTS Part, Width

Types5 == {"double", "float", "integer", "string", "boolean"}
NumTypes == {"double", "float", "integer"}

NumLits(type) ==
  <<IntL(0), IntL(1), IntL(-1), IntL(2)>> \o
  IF type = "integer" THEN <<IntL(7), [IntL(10) EXCEPT !.s = "010"], [IntL(2) EXCEPT !.s = "+2"], [IntL(0) EXCEPT !.s = "-0"]>> ELSE <<NumL(3, 2, "1.5"), NumL(1, 1, "1.0"), NumL(2, 1, "2e0"), NumL(-1, 4, "-0.25")>>
Lits(type) ==
  CASE type \in NumTypes -> NumLits(type)
    [] type = "boolean"  -> <<BoolL("true", "true"), BoolL("false", "false"), BoolL("1", "true"), BoolL("0", "false")>>
    [] OTHER -> <<TextL("a"), TextL(""), TextL(" a"), TextL("a "), TextL("A"), TextL("ab"), IntL(1), NumL(1, 1, "1.0"), BoolL("true", "true"), TextL("x y")>>

GoInts == {"int", "int8", "int16", "int32", "int64"}
GoUints == {"uint", "uint8", "uint16", "uint32", "uint64"}
Ints(g, S) == {Number(g, n, 1, ToString(n)) : n \in S}
Values(type) ==
  {Gone, NilV} \cup
  CASE type \in NumTypes ->
         Ints("int", {8, 10}) \cup UNION {Ints(g, {-1, 0, 1, 2, 7}) : g \in GoInts} \cup UNION {Ints(g, {0, 1, 2, 7}) : g \in GoUints}
         \cup UNION {Ints(g, {-1, 0, 1, 2}) \cup {Number(g, 3, 2, "1.5"), Number(g, -1, 4, "-0.25"), Number(g, 1, 2, "0.5")} : g \in {"float32", "float64"}}
         \cup {NumText(1, 1, "1"), NumText(1, 1, "1.0"), NumText(0, 1, "0"), NumText(-1, 1, "-1"), NumText(3, 2, "1.5"), NumText(2, 1, "+2"), NumText(2, 1, "0.2e1"),
               NumText(-1, 4, "-0.25")}
    [] type = "boolean" -> {BoolV(TRUE), BoolV(FALSE), Text("true"), Text("false"), Text("maybe")}
    [] OTHER -> {Text(s) : s \in {"a", "A", "b", "ab", "true", "x y", "x", "", " a", "a ", "<nil>"}} \cup {NumText(1, 1, "1"), NumText(1, 1, "1.0"), NumText(0, 1, "0")}

Ops(type) == {"equal", "notEqual", "isMissing", "isNotMissing"} \cup (IF type \in NumTypes THEN OrderOps ELSE {})

\* the case for one predicate over one field
One(type, p) == Case(Probe(<<Data("x", type)>>, p), SetToSeq({MkRow(<<"x">>, <<v>>) : v \in Values(type)}))

SimplePreds(type) == {Simple("x", op, l) : op \in Ops(type), l \in Range(Lits(type))}
SetPreds(type) == {InSet("x", op, ls) : op \in {"isIn", "isNotIn"}, ls \in UpTo(Range(Lits(type)), 2)}

\* -- compounds: atoms a, b, c are true, false or unknown by the row ---------------
Names == <<"a", "b", "c">>
Atom(n) == Simple(n, "equal", IntL(1))
Three == {IntV(1), IntV(0), Gone}
DD3 == <<Data("a", "double"), Data("b", "double"), Data("c", "double")>>
Rows3 == SetToSeq({MkRow(Names, vs) : vs \in Tuples(Three, 3)})
Many3(p) == Case(Probe(DD3, p), Rows3)

Atoms == {Atom("a"), Atom("b"), Atom("c")}
Leaves == Atoms \cup {TrueP, FalseP}
Flat(w) == {Comp(op, ch) : op \in CompOps, ch \in UNION {Tuples(Leaves, k) : k \in 1..w}}
Inner == {Comp(op, ch) : op \in CompOps, ch \in {<<Atom("a"), Atom("b")>>, <<Atom("b")>>}}
         \cup {InSet("a", "isNotIn", <<IntL(1), IntL(2)>>), InSet("b", "isIn", <<>>), Simple("a", "isMissing", NoL), Simple("b", "isNotMissing", NoL)}
Nested == {Comp(op, ch) : op \in CompOps, ch \in UNION {{<<x>>, <<x, y>>, <<y, x>>} : x \in Inner, y \in Inner \cup {Atom("c"), TrueP, FalseP}}}
Deeper == {Comp(op, <<n, Atom("c")>>) : op \in CompOps, n \in {Comp(o2, <<i, Atom("b")>>) : o2 \in CompOps, i \in Inner}}

AllCases ==
  CASE Part = "simple" -> UNION {{One(t, p) : p \in SimplePreds(t)} : t \in Types5}
    [] Part = "set"    -> UNION {{One(t, p) : p \in SetPreds(t)} : t \in Types5}
    [] Part = "flat"   -> {Many3(p) : p \in Flat(Width)}
    [] OTHER           -> {Many3(p) : p \in Nested \cup Deeper}

-----------------------------------------------------------------------------
(* Laws of the three-valued logic, which the truth tables must obey.             *)
V3 == {"T", "F", "U"}
Seqs == UNION {Tuples(V3, k) : k \in 0..4}
Same(s, t) == \A x \in V3 : Cardinality({i \in DOMAIN s : s[i] = x}) = Cardinality({i \in DOMAIN t : t[i] = x})
\* t knows at least what s knows
Refines(s, t) == Len(s) = Len(t) /\ \A i \in DOMAIN s : s[i] = "U" \/ s[i] = t[i]
Negated(s) == [i \in DOMAIN s |-> Not3(s[i])]
ASSUME \A s \in Seqs :
  /\ Not3(And3(s)) = Or3(Negated(s)) /\ Not3(Or3(s)) = And3(Negated(s))                       \* De Morgan
  /\ Len(s) = 1 => And3(s) = s[1] /\ Or3(s) = s[1] /\ Xor3(s) = s[1] /\ Surr3(s) = s[1]
  /\ \A t \in Seqs : Same(s, t) => And3(s) = And3(t) /\ Or3(s) = Or3(t) /\ Xor3(s) = Xor3(t)    \* order does not matter
  /\ \A t \in Seqs : Refines(s, t) => \A op \in CompOps \ {"surrogate"} : Comp3(op, s) \in {"U", Comp3(op, t)}   \* monotone
  /\ \A t \in Seqs : Len(s) + Len(t) <= 4 /\ s # <<>> /\ t # <<>> =>
       \A op \in CompOps : Comp3(op, s \o t) = Comp3(op, <<Comp3(op, s), Comp3(op, t)>>)         \* associative
=============================================================================
