------------------------------- MODULE MC_Load -------------------------------
(* Every element type with every attribute and every child, pair of children     *)
(* and grandchild; documents cut short or damaged anywhere.  The machine reads    *)
(* one token per step; at the end its tree is the one TreeOf defines, and taking   *)
(* out unknown elements changes nothing else.                                     *)
EXTENDS Load
CONSTANT Parts
VARIABLES case, m, i
vars == <<case, m, i>>

Types == DOMAIN Schema
Plain == {t \in Types : ~Schema[t].any /\ t # "Cell"}
Val(s, num, int, uint) == [s |-> s, num |-> num, int |-> int, uint |-> uint]

\* value number j of a kind
Good(kind, j) ==
  CASE kind = "num"   -> IF j % 3 = 0 THEN Val("-" \o ToString(j) \o "e1", TRUE, FALSE, FALSE) ELSE Val(ToString(j) \o ".25", TRUE, FALSE, FALSE)
    [] kind = "int"   -> IF j % 3 = 0 THEN Val("-" \o ToString(j), TRUE, TRUE, FALSE) ELSE Val(ToString(j), TRUE, TRUE, TRUE)
    [] kind = "uint"  -> Val(ToString(j), TRUE, TRUE, TRUE)
    [] kind = "bool"  -> Val(IF j % 2 = 0 THEN "false" ELSE "true", FALSE, FALSE, FALSE)
    [] kind = "yesno" -> Val(IF j % 2 = 0 THEN "no" ELSE "yes", FALSE, FALSE, FALSE)
    [] OTHER          -> IF j % 3 = 0 THEN Val("a<b&c '" \o ToString(j), FALSE, FALSE, FALSE) ELSE Val(" t" \o ToString(j) \o " \"x\" ", FALSE, FALSE, FALSE)
BadVal(j) == Val(<<"abc", "1,5", "--1", "1x", "one", "0..1">>[(j % 6) + 1], FALSE, FALSE, FALSE)
Numeric(kind) == kind \in {"num", "int", "uint"}

At(t, idx, v) == [x |-> Schema[t].attrs[idx].x, v |-> v]
N(t) == Len(Schema[t].attrs)
AllBut(t, out, off) == LET keep == SelectSeq([j \in 1..N(t) |-> j], LAMBDA j : j \notin out)
                       IN [j \in DOMAIN keep |-> At(t, keep[j], Good(Schema[t].attrs[keep[j]].k, keep[j] + off))]
Unknown == [x |-> "unknownAttribute", v |-> Val("u", FALSE, FALSE, FALSE)]

AttrDocs(t) ==
  {Elem(t, <<>>, <<>>), Elem(t, <<Unknown>>, <<>>), Elem(t, AllBut(t, {}, 0), <<>>), Elem(t, Reverse(AllBut(t, {}, 1)) \o <<Unknown>>, <<>>)}
  \cup {Elem(t, <<At(t, j, Good(Schema[t].attrs[j].k, n))>>, <<>>) : j \in 1..N(t), n \in 1..3}
  \cup {Elem(t, AllBut(t, {j}, 2), <<>>) : j \in 1..N(t)}
  \cup {Elem(t, <<At(t, p[1], Good(Schema[t].attrs[p[1]].k, p[3])), At(t, p[2], Good(Schema[t].attrs[p[2]].k, p[3] + 1))>>, <<>>) :
          p \in {q \in (1..N(t)) \X (1..N(t)) \X (1..2) : q[1] # q[2]}}
  \cup UNION {IF ~Numeric(Schema[t].attrs[j].k) THEN {}
              ELSE {Elem(t, <<At(t, j, BadVal(n))>>, <<>>) : n \in 1..3}
                   \cup {Elem(t, AllBut(t, {j}, 0) \o <<At(t, j, BadVal(j))>>, <<>>), Elem(t, <<At(t, j, BadVal(j + 3))>> \o AllBut(t, {j}, 0), <<>>)}
              : j \in 1..N(t)}

\* a child, told apart from its siblings by its first attribute or its text
Mark(t, n, j, c) ==
  Elem(n, IF t = "Cell" \/ N(t) = 0 THEN <<>> ELSE <<At(t, 1, Good(Schema[t].attrs[1].k, j))>>,
       c \o IF Keeps(t) THEN <<Text("text" \o ToString(j))>> ELSE <<>>)
Kids(t) == Schema[t].kids
Many(k) == k.mult \in {"many", "ifaces"}
\* an element unknown to t with a known one inside it, and an extension
Strange(t, c) == Elem("Unknown", <<Unknown>>, <<Text("x"), c, Elem("deeper", <<>>, <<c>>)>>)
Ext(j, c) == Elem("Extension", <<[x |-> "name", v |-> Val("e" \o ToString(j), FALSE, FALSE, FALSE)]>>, <<Text("some"), c, Text("thing")>>)
Foreign(t, j, c) == IF j % 2 = 0 THEN Strange(t, c) ELSE Ext(j, c)

OneKid(t, k) ==
  LET x(j) == Mark(k.t, k.x, j, <<>>) IN
  {Elem(t, <<>>, <<x(1)>>), Elem(t, AllBut(t, {}, 0), <<Foreign(t, 0, x(5)), x(1), Note("note"), Foreign(t, 1, x(6))>>)}
  \cup IF Many(k) THEN {Elem(t, <<>>, <<x(1), x(2), Foreign(t, 1, x(7)), x(3), Foreign(t, 2, x(8)), x(4)>>)} ELSE {}
TwoKids(t, k, l) ==
  LET x(j) == Mark(k.t, k.x, j, <<>>)
      y(j) == Mark(l.t, l.x, j, <<>>)
  IN IF k.slot = l.slot /\ ~Many(k) THEN {}
     ELSE {Elem(t, <<>>, <<x(1), y(2)>> \o (IF Many(k) THEN <<x(3)>> ELSE <<>>) \o (IF Many(l) THEN <<y(4)>> ELSE <<>>))}
GrandKids(t, k) ==
  IF k.t = "Row" THEN {Elem(t, <<>>, <<Elem(k.x, <<>>, <<Mark("Cell", "a", 1, <<>>), Mark("Cell", "b", 2, <<Note("n")>>)>>), Elem(k.x, <<>>, <<Mark("Cell", "b", 3, <<>>)>>)>>)}
  ELSE {Elem(t, <<>>, <<Mark(k.t, k.x, 1, <<Mark(Kids(k.t)[g].t, Kids(k.t)[g].x, 2, <<>>), Foreign(k.t, g, Mark(k.t, k.x, 9, <<>>))>>)>>
          \o IF Many(k) THEN <<Mark(k.t, k.x, 3, <<Mark(Kids(k.t)[g].t, Kids(k.t)[g].x, 4, <<>>)>>)>> ELSE <<>>) : g \in DOMAIN Kids(k.t)}
Texts(t) ==
  IF ~Keeps(t) THEN {}
  ELSE {Elem(t, <<>>, <<Text("one")>>), Elem(t, <<>>, <<Text(" one & <two> ")>>),
        Elem(t, AllBut(t, {}, 0), <<Text("one "), Foreign(t, 1, Elem("a", <<>>, <<Text("no")>>)), Text("two"), Note("no"), Foreign(t, 2, Elem("b", <<>>, <<Text("no")>>)), Text(" three")>>)}

Singles(t) == {Kids(t)[j] : j \in DOMAIN Kids(t)}
KidDocs(t) == UNION {OneKid(t, k) \cup GrandKids(t, k) : k \in Singles(t)} \cup Texts(t)
PairDocs(t) == UNION {TwoKids(t, k, l) : k \in Singles(t), l \in Singles(t)}

\* documents to damage: one child of each kind, some inside unknown elements and extensions
Whole(t) ==
  LET pick == SelectSeq(Kids(t), LAMBDA k : k.x \in {"Extension", "Node", "Segment", "SimplePredicate", "Apply", "InlineTable", "row", "Value", "Array", "Constant", "MiningField", "Table", "DataField", "TreeModel"})
      few == SubSeq(pick, 1, IF Len(pick) < 3 THEN Len(pick) ELSE 3)
  IN Elem(t, AllBut(t, {}, 0), [j \in DOMAIN few |-> Mark(few[j].t, few[j].x, j, <<>>)] \o <<Strange(t, Elem("True", <<>>, <<>>)), Ext(1, Elem("True", <<>>, <<>>))>>)
Damaged == {"PMML", "Node", "Segment", "Apply", "DerivedField", "DefineFunction", "CompoundPredicate", "InlineTable", "ChildParent", "Alternate", "TreeModel", "NumericPredictor",
            "MiningModel", "RegressionModel", "DataDictionary", "Extension", "True", "MapValues"}
JunkTexts == {"< >", "<a b=c>", "&undefined;", "<a", "</>", "<a b=\"1>", "<![CDATA[", "<!--"}
BrokenToks(t) ==
  LET toks == Flat(Whole(t))
      n == Len(toks)
  IN {SubSeq(toks, 1, j) : j \in 0..(n - 1)}
     \cup {[toks EXCEPT ![j] = Close("Wrong")] : j \in {j \in 1..n : toks[j].k = "close"}}
     \cup {SubSeq(toks, 1, j) \o SubSeq(toks, j + 2, n) : j \in {j \in 1..(n - 1) : toks[j + 1].k = "close"}}
     \cup {SubSeq(toks, 1, j) \o <<Junk(g)>> \o SubSeq(toks, j + 1, n) : j \in 1..(n - 1), g \in JunkTexts}

Cases ==
  (IF "attrs" \in Parts THEN UNION {{[root |-> t, doc |-> <<d>>, toks |-> Flat(d)] : d \in AttrDocs(t)} : t \in Plain} ELSE {})
  \cup (IF "kids" \in Parts THEN UNION {{[root |-> t, doc |-> <<d>>, toks |-> Flat(d)] : d \in KidDocs(t)} : t \in Plain} ELSE {})
  \cup (IF "pairs" \in Parts THEN UNION {{[root |-> t, doc |-> <<d>>, toks |-> Flat(d)] : d \in PairDocs(t)} : t \in Plain} ELSE {})
  \cup (IF "broken" \in Parts THEN UNION {{[root |-> t, doc |-> <<>>, toks |-> d] : d \in BrokenToks(t)} : t \in Damaged} ELSE {})

Init == case \in Cases /\ m = Start(case.root) /\ i = 0
Next ==
  \/ i < Len(case.toks) /\ i' = i + 1 /\ m' = Step(m, case.toks[i + 1]) /\ UNCHANGED case
  \/ i = Len(case.toks) /\ i' = i + 1 /\ m' = End(m) /\ UNCHANGED case
Spec == Init /\ [][Next]_vars

AtEnd == i = Len(case.toks) + 1
Opens == Len(SelectSeq(SubSeq(case.toks, 1, i), LAMBDA x : x.k = "open"))
Closes == Len(SelectSeq(SubSeq(case.toks, 1, i), LAMBDA x : x.k = "close"))
StackDepth == m.st = "reading" => Len(m.stack) + Len(m.skip) = Opens - Closes
SameTree   == AtEnd /\ case.doc # <<>> =>
                IF WellTyped(case.root, case.doc[1]) THEN m.st = "done" /\ m.tree = <<TreeOf(case.root, "", case.doc[1])>>
                ELSE m.st = "failed"
SkipNeutral == AtEnd /\ m.st = "done" /\ case.doc # <<>> =>
                 NoExt(m.tree[1]) = NoExt(TreeOf(case.root, "", Strip(case.root, case.doc[1])))
BrokenFails == AtEnd /\ case.doc = <<>> => m.st = "failed"
Emit == AtEnd => PrintT("@@" \o ToJson([id |-> "", root |-> case.root, toks |-> case.toks, st |-> m.st, tree |-> m.tree]))
=============================================================================
