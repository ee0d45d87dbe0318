-------------------------------- MODULE Docs --------------------------------
(* Constructors for the documents and rows that the MC_* modules enumerate.     *)
EXTENDS Verif

\* literals
NumL(n, d, s) == [s |-> s, isnum |-> TRUE, n |-> n, d |-> d, isint |-> d = 1, b |-> "no"]
IntL(n)       == NumL(n, 1, ToString(n))
TextL(s)      == [s |-> s, isnum |-> FALSE, n |-> 0, d |-> 1, isint |-> FALSE, b |-> "no"]
BoolL(s, b)   == [s |-> s, isnum |-> FALSE, n |-> 0, d |-> 1, isint |-> FALSE, b |-> b]
NoL           == TextL("")

\* row values; g: the Go type the caller uses
Number(g, n, d, s) == [k |-> "num", g |-> g, n |-> n, d |-> d, s |-> s]
IntV(n)       == Number("", n, 1, ToString(n))
Text(s)       == [k |-> "str", s |-> s, isnum |-> FALSE, n |-> 0, d |-> 1]
NumText(n, d, s) == [k |-> "str", s |-> s, isnum |-> TRUE, n |-> n, d |-> d]

RowOf(f, v)   == [x \in {f} |-> v]
Gone          == [k |-> "gone"]               \* the key is not there at all
\* the row over fields (a sequence) with the values of vs
MkRow(fields, vs) ==
  LET there == {i \in DOMAIN fields : vs[i] # Gone} IN
  [f \in {fields[i] : i \in there} |-> vs[CHOOSE i \in there : fields[i] = f]]

Data(name, type) == [name |-> name, type |-> type, values |-> <<>>]
Active(name)     == [name |-> name, usage |-> "active", repl |-> <<>>]
TargetF(name)    == [name |-> name, usage |-> "target", repl |-> <<>>]

\* predicates
TrueP == [p |-> "true"]
FalseP == [p |-> "false"]
Simple(f, op, l)  == [p |-> "simple", f |-> f, op |-> op, v |-> l]
InSet(f, op, ls)  == [p |-> "set", f |-> f, op |-> op, items |-> ls]
Comp(op, ch)      == [p |-> "comp", op |-> op, ch |-> ch]

\* trees
Node(id, pred, score, ch) ==
  [id |-> id, dc |-> "", score |-> score, rc |-> RZero, pred |-> pred, dist |-> <<>>, ch |-> ch]
DistE(l, rc, prob) == [v |-> l, rc |-> RInt(rc), prob |-> prob]

Base(kind, fn, schema) ==
  [kind |-> kind, fn |-> fn, schema |-> schema, lt |-> <<>>, strat |-> "", ntc |-> "", pen |-> <<>>,
   norm |-> "", tables |-> <<>>, outs |-> <<>>, method |-> "", targets |-> <<>>, segs |-> <<>>]
TreeM(fn, schema, root) == [root |-> root] @@ Base("tree", fn, schema)
RegM(fn, schema, norm, tables, outs) ==
  [Base("reg", fn, schema) EXCEPT !.norm = norm, !.tables = tables, !.outs = outs]
MiningM(fn, schema, method, segs, outs) ==
  [Base("mining", fn, schema) EXCEPT !.method = method, !.segs = segs, !.outs = outs]
Segm(pred, model) == [id |-> "", preds |-> <<pred>>, models |-> <<model>>]
OutP(name, value) == [name |-> name, feature |-> "probability", value |-> value]
TableR(b, cat, nums) == [intercept |-> b, cat |-> cat, nums |-> nums, cats |-> <<>>, terms |-> FALSE]
NumT(f, coef, e) == [name |-> f, coef |-> coef, exp |-> e]
CatT(f, v, coef) == [name |-> f, value |-> v, coef |-> coef]

\* expressions
Ref(f)   == [e |-> "ref", f |-> f]
Const(l) == [e |-> "const", type |-> "double", v |-> l]
App(fn, args) == [e |-> "apply", fn |-> fn, args |-> args]
DF(name, op, type, expr) == [name |-> name, op |-> op, type |-> type, expr |-> expr]

MkDoc(dd, td, model) == [dd |-> dd, td |-> td, model |-> model, ver |-> <<>>]
Case(d, rs) == [doc |-> d, rows |-> rs]

\* A tree that tells true (score 1), false (score 2) and unknown (no prediction) apart.
Probe(dd, pred) ==
  MkDoc(dd, <<>>,
        [TreeM("regression", [i \in 1..Len(dd) |-> Active(dd[i].name)],
               Node("r", TrueP, IntL(0), <<Node("t", pred, IntL(1), <<>>), Node("f", TrueP, IntL(2), <<>>)>>))
         EXCEPT !.strat = "nullPrediction"])

Tuples(S, n) == [1..n -> S]
UpTo(S, n)   == UNION {Tuples(S, k) : k \in 0..n}
=============================================================================
