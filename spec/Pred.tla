-------------------------------- MODULE Pred --------------------------------
(* Predicates: three-valued, typed (properties P02, P15).                      *)
(*   [p |-> "true"] [p |-> "false"]                                            *)
(*   [p |-> "simple", f, op, v]       v: literal                               *)
(*   [p |-> "set", f, op, items]      items: sequence of literals              *)
(*   [p |-> "comp", op, ch]           ch: sequence of predicates               *)
(*   [p |-> "none"]                   no predicate written                     *)
(* types is a function from declared field names to data types.               *)
EXTENDS Vals

OrderOps   == {"lessThan", "lessOrEqual", "greaterThan", "greaterOrEqual"}
MissingOps == {"isMissing", "isNotMissing"}
CompOps    == {"and", "or", "xor", "surrogate"}

RECURSIVE PredOk(_, _)
\* Can the predicate be built at all?
PredOk(p, types) ==
  CASE p.p \in {"true", "false"} -> TRUE
    [] p.p = "simple" ->
         /\ p.f \in DOMAIN types
         /\ \/ p.op \in MissingOps
            \/ /\ p.op \in OrderOps
               /\ types[p.f] \in {"double", "float", "integer"}
               /\ LitOfType(p.v, types[p.f])
            \/ /\ p.op \in {"equal", "notEqual"}
               /\ LitOfType(p.v, types[p.f])
    [] p.p = "set" ->
         /\ p.f \in DOMAIN types
         /\ p.op \in {"isIn", "isNotIn"}
         /\ \A i \in 1..Len(p.items) : LitOfType(p.items[i], types[p.f])
    [] p.p = "comp" ->
         /\ p.op \in CompOps
         /\ \A i \in 1..Len(p.ch) : PredOk(p.ch[i], types)
    [] OTHER -> FALSE

B3(b) == IF b THEN "T" ELSE "F"
Not3(x) == CASE x = "T" -> "F" [] x = "F" -> "T" [] OTHER -> "U"

EvalSimple(p, row, types) ==
  LET v == Get(row, p.f) IN
  CASE p.op = "isMissing"    -> B3(IsNil(v))
    [] p.op = "isNotMissing" -> B3(~IsNil(v))
    [] IsNil(v)              -> "U"
    [] p.op = "equal"        -> B3(EqTyped(v, p.v, types[p.f]))
    [] p.op = "notEqual"     -> B3(~EqTyped(v, p.v, types[p.f]))
    [] p.op = "lessThan"     -> B3(RLt(Num(v), LitR(p.v)))
    [] p.op = "lessOrEqual"  -> B3(RLe(Num(v), LitR(p.v)))
    [] p.op = "greaterThan"  -> B3(RLt(LitR(p.v), Num(v)))
    [] OTHER                 -> B3(RLe(LitR(p.v), Num(v)))       \* greaterOrEqual

EvalSet(p, row, types) ==
  LET v  == Get(row, p.f)
      in == \E i \in 1..Len(p.items) : EqTyped(v, p.items[i], types[p.f])
  IN IF IsNil(v) THEN "U" ELSE B3(in = (p.op = "isIn"))

\* Kleene's tables, as folds over the children's values
And3(s) == IF \E i \in DOMAIN s : s[i] = "F" THEN "F"
           ELSE IF \E i \in DOMAIN s : s[i] = "U" THEN "U" ELSE "T"
Or3(s)  == IF \E i \in DOMAIN s : s[i] = "T" THEN "T"
           ELSE IF \E i \in DOMAIN s : s[i] = "U" THEN "U" ELSE "F"
Xor3(s) == IF \E i \in DOMAIN s : s[i] = "U" THEN "U"
           ELSE B3(Cardinality({i \in DOMAIN s : s[i] = "T"}) % 2 = 1)
RECURSIVE Surr3(_)
Surr3(s) == IF s = <<>> THEN "U"
            ELSE IF Head(s) # "U" THEN Head(s) ELSE Surr3(Tail(s))

Comp3(op, s) == CASE op = "and" -> And3(s)
                  [] op = "or"  -> Or3(s)
                  [] op = "xor" -> Xor3(s)
                  [] OTHER      -> Surr3(s)

RECURSIVE EvalPred(_, _, _)
EvalPred(p, row, types) ==
  CASE p.p = "true"   -> "T"
    [] p.p = "false"  -> "F"
    [] p.p = "simple" -> EvalSimple(p, row, types)
    [] p.p = "set"    -> EvalSet(p, row, types)
    [] OTHER          -> Comp3(p.op, [i \in 1..Len(p.ch) |-> EvalPred(p.ch[i], row, types)])

\* All present values the predicate reads are usable for their fields' types
\* (otherwise the property says nothing about the outcome).
RECURSIVE PredDef(_, _, _)
PredDef(p, row, types) ==
  CASE p.p \in {"simple", "set"} ->
         \/ Missing(row, p.f)
         \/ p.op \in MissingOps
         \/ Usable(Get(row, p.f), types[p.f])
    [] p.p = "comp" -> \A i \in 1..Len(p.ch) : PredDef(p.ch[i], row, types)
    [] OTHER -> TRUE
=============================================================================
