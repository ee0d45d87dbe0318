-------------------------------- MODULE Load --------------------------------
(* Loading a document (P01, P18): a pushdown machine reading XML tokens.         *)
(*                                                                               *)
(* schema.json lists, for every element type, the attributes it keeps (x name,    *)
(* k kind, own value when absent), the children it keeps (x name, t type, slot)    *)
(* and whether it keeps text ("text"), raw content ("inner") or cells ("any").     *)
(* Tokens: open(n, a), close(n), text(s), note (comment or instruction), junk      *)
(* (bytes that are no XML).  Attribute values carry their readings as numbers.      *)
EXTENDS Naturals, Sequences, SequencesExt, TLC, Json

Schema == JsonDeserialize("schema.json")

Open(n, a) == [k |-> "open",  n |-> n,  a |-> a,    s |-> ""]
Close(n)   == [k |-> "close", n |-> n,  a |-> <<>>, s |-> ""]
Text(s)    == [k |-> "text",  n |-> "", a |-> <<>>, s |-> s]
Note(s)    == [k |-> "note",  n |-> "", a |-> <<>>, s |-> s]
Junk(s)    == [k |-> "junk",  n |-> "", a |-> <<>>, s |-> s]

Readable(kind, v) ==
  CASE kind = "num"   -> v.num
    [] kind = "int"   -> v.int
    [] kind = "uint"  -> v.uint
    [] kind = "bool"  -> v.s \in {"true", "false"}
    [] kind = "yesno" -> v.s \in {"yes", "no"}
    [] OTHER          -> TRUE

Written(a, x) == SelectSeq(a, LAMBDA y : y.x = x)
BadAttrs(t, a) ==
  \E i \in DOMAIN Schema[t].attrs :
    \E j \in DOMAIN a : a[j].x = Schema[t].attrs[i].x /\ ~Readable(Schema[t].attrs[i].k, a[j].v)
AttrsOf(t, a) ==
  [i \in DOMAIN Schema[t].attrs |->
     LET d == Schema[t].attrs[i]
         w == Written(a, d.x)
     IN IF w = <<>> THEN [x |-> d.x, set |-> FALSE, s |-> d.own]
        ELSE [x |-> d.x, set |-> TRUE, s |-> w[1].v.s]]

\* the child slot an element named n fills inside type t: at most one
KidOf(t, n) ==
  IF Schema[t].any THEN <<[x |-> n, t |-> "Cell", slot |-> n]>>
  ELSE SelectSeq(Schema[t].kids, LAMBDA c : c.x = n)
Keeps(t)    == Schema[t].text # ""
Raw(t)      == Schema[t].inner # ""

\* --- the machine -----------------------------------------------------------
Frame(t, n, slot, a) == [t |-> t, n |-> n, slot |-> slot, attrs |-> AttrsOf(t, a), kids |-> <<>>, text |-> "", inner |-> <<>>]
Tree(f) == [t |-> f.t, n |-> f.n, slot |-> f.slot, attrs |-> f.attrs, kids |-> f.kids, text |-> f.text, inner |-> f.inner]

Start(root) == [root |-> root, st |-> "reading", stack |-> <<>>, skip |-> <<>>, tree |-> <<>>]
Fail(m) == [m EXCEPT !.st = "failed", !.stack = <<>>, !.skip = <<>>]

Top(m) == Last(m.stack)
Record(m, tok) ==   \* raw content is kept as it stands
  IF m.stack # <<>> /\ Raw(Top(m).t) THEN [m EXCEPT !.stack[Len(m.stack)].inner = Append(@, tok)] ELSE m

Opened(m, tok) ==
  IF m.skip # <<>> THEN [Record(m, tok) EXCEPT !.skip = Append(@, tok.n)]
  ELSE IF m.stack = <<>> THEN
    IF BadAttrs(m.root, tok.a) THEN Fail(m) ELSE [m EXCEPT !.stack = <<Frame(m.root, tok.n, "", tok.a)>>]
  ELSE LET c == KidOf(Top(m).t, tok.n) IN
    IF c = <<>> THEN [Record(m, tok) EXCEPT !.skip = <<tok.n>>]
    ELSE IF BadAttrs(c[1].t, tok.a) THEN Fail(m)
    ELSE [m EXCEPT !.stack = Append(@, Frame(c[1].t, tok.n, c[1].slot, tok.a))]

Closed(m, tok) ==
  IF m.skip # <<>> THEN
    IF Last(m.skip) = tok.n THEN [Record(m, tok) EXCEPT !.skip = Front(@)] ELSE Fail(m)
  ELSE IF m.stack = <<>> \/ Top(m).n # tok.n THEN Fail(m)
  ELSE IF Len(m.stack) = 1 THEN [m EXCEPT !.st = "done", !.tree = <<Tree(Top(m))>>, !.stack = <<>>]
  ELSE LET up == Len(m.stack) - 1
           parent == [m.stack[up] EXCEPT !.kids = Append(@, Tree(Top(m)))]
       IN [m EXCEPT !.stack = Append(SubSeq(m.stack, 1, up - 1), parent)]

Spoken(m, tok) ==
  IF m.stack = <<>> THEN m
  ELSE IF m.skip = <<>> /\ Keeps(Top(m).t) THEN [m EXCEPT !.stack[Len(m.stack)].text = @ \o tok.s]
  ELSE Record(m, tok)

Step(m, tok) ==
  IF m.st # "reading" THEN m
  ELSE CASE tok.k = "open"  -> Opened(m, tok)
         [] tok.k = "close" -> Closed(m, tok)
         [] tok.k = "text"  -> Spoken(m, tok)
         [] tok.k = "note"  -> Record(m, tok)
         [] OTHER           -> Fail(m)

\* the input ends: a document cut short is not well formed
End(m) == IF m.st = "reading" THEN Fail(m) ELSE m

Loaded(root, toks) == End(FoldLeft(Step, Start(root), toks))

\* --- the same as a function of the element tree ------------------------------
\* An element: [n, a, c]; its children c are elements or tokens (text, note).
Elem(n, a, c) == [k |-> "elem", n |-> n, a |-> a, c |-> c, s |-> ""]
RECURSIVE Flat(_), FlatAll(_)
Flat(e) == IF e.k = "elem" THEN <<Open(e.n, e.a)>> \o FlatAll(e.c) \o <<Close(e.n)>> ELSE <<e>>
FlatAll(c) == IF c = <<>> THEN <<>> ELSE Flat(Head(c)) \o FlatAll(Tail(c))

RECURSIVE TreeOf(_, _, _), KidTrees(_, _), WellTyped(_, _)
KidTrees(t, c) ==
  IF c = <<>> THEN <<>>
  ELSE LET e == Head(c)
           k == IF e.k = "elem" THEN KidOf(t, e.n) ELSE <<>>
       IN (IF k = <<>> THEN <<>> ELSE <<TreeOf(k[1].t, k[1].slot, e)>>) \o KidTrees(t, Tail(c))
TreeOf(t, slot, e) ==
  [t |-> t, n |-> e.n, slot |-> slot, attrs |-> AttrsOf(t, e.a),
   kids |-> KidTrees(t, e.c),
   text |-> IF Keeps(t) THEN FoldLeft(LAMBDA acc, x : IF x.k = "text" THEN acc \o x.s ELSE acc, "", e.c) ELSE "",
   inner |-> IF Raw(t) THEN FlatAll(e.c) ELSE <<>>]
WellTyped(t, e) ==
  /\ ~BadAttrs(t, e.a)
  /\ \A i \in DOMAIN e.c : e.c[i].k = "elem" =>
       LET k == KidOf(t, e.c[i].n) IN k = <<>> \/ WellTyped(k[1].t, e.c[i])

\* everything the library does not know, and every extension, taken out
RECURSIVE Strip(_, _)
Strip(t, e) ==
  LET known == SelectSeq(e.c, LAMBDA x : IF x.k = "elem" THEN x.n # "Extension" /\ KidOf(t, x.n) # <<>> ELSE x.k = "text" /\ Keeps(t)) IN
  [e EXCEPT !.c = IF Raw(t) THEN @ ELSE [i \in DOMAIN known |-> IF known[i].k = "elem" THEN Strip(KidOf(t, known[i].n)[1].t, known[i]) ELSE known[i]],
            !.a = SelectSeq(@, LAMBDA y : \E i \in DOMAIN Schema[t].attrs : Schema[t].attrs[i].x = y.x)]
RECURSIVE NoExt(_)
NoExt(tr) == [tr EXCEPT !.kids = LET s == SelectSeq(@, LAMBDA k : k.n # "Extension") IN [i \in DOMAIN s |-> NoExt(s[i])]]

\* --- the factories -------------------------------------------------------------
Factory ==
  [GetModelElement |-> {"AssociationModel", "BaselineModel", "BayesianNetworkModel", "ClusteringModel", "GaussianProcessModel",
                        "GeneralRegressionModel", "MiningModel", "NaiveBayesModel", "NearestNeighborModel", "NeuralNetwork",
                        "RegressionModel", "RuleSetModel", "Scorecard", "SequenceModel", "SupportVectorMachineModel", "TextModel",
                        "TimeSeriesModel", "TreeModel"},
   GetPredicate |-> {"CompoundPredicate", "False", "SimplePredicate", "SimpleSetPredicate", "True"},
   GetExpression |-> {"Aggregate", "Apply", "Constant", "Discretize", "FieldRef", "Lag", "MapValues", "NormContinuous",
                      "NormDiscrete", "TextIndex"},
   GetContinuousDistributionType |-> {"AnyDistribution", "GaussianDistribution", "PoissonDistribution", "UniformDistribution"},
   GetTable |-> {"InlineTable", "TableLocator"},
   GetEmbeddedModel |-> {"DecisionTree", "Regression"}]
Makes(f, n) == IF n \in Factory[f] THEN n ELSE "-"
=============================================================================
