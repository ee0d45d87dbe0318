-------------------------------- MODULE Regr --------------------------------
(* Regression models (P06).  Link functions are not rational: the specification *)
(* fixes their argument and leaves their value symbolic (see Sym below).        *)
(*  table [intercept, cat, nums, cats]                                          *)
(*     nums: sequence of [name, coef, exp]; cats: [name, value, coef]           *)
EXTENDS Vals, SequencesExt

\* Symbolic numbers: what an output's value must be.
SymQ(r)        == [x |-> "q", n |-> r.n, d |-> r.d]
SymLink(f, r)  == IF f = "none" THEN SymQ(r) ELSE [x |-> "link", f |-> f, n |-> r.n, d |-> r.d]
SymCo(f, r)    == IF f = "none" THEN SymQ(RSub(ROne, r)) ELSE [x |-> "colink", f |-> f, n |-> r.n, d |-> r.d]
SymSoft(i, ys) == [x |-> "soft", i |-> i, ys |-> ys]
SymAdd(a, b)   == IF a.x = "q" /\ b.x = "q" THEN SymQ(RAdd(R(a.n, a.d), R(b.n, b.d)))
                  ELSE [x |-> "add", a |-> a, b |-> b]
SymMul(a, r)   == IF a.x = "q" THEN SymQ(RMul(R(a.n, a.d), r))
                  ELSE [x |-> "mul", a |-> a, n |-> r.n, d |-> r.d]

Norms == {"none", "logit", "softmax", "simplemax", "exp", "cloglog", "cauchit"}
Links == {"none", "logit", "softmax", "exp", "cloglog", "cauchit"}

HasTerms(t) == t.nums # <<>> \/ t.cats # <<>> \/ t.terms

TermFields(t) == {t.nums[i].name : i \in 1..Len(t.nums)} \cup {t.cats[i].name : i \in 1..Len(t.cats)}

\* every field the table reads is present
Complete(t, row) == \A f \in TermFields(t) : ~Missing(row, f)

\* and is a number where a number is needed (0 to a negative power is not one)
Determined(t, row) ==
  /\ \A i \in 1..Len(t.nums) :
       LET v == Get(row, t.nums[i].name)
       IN  Numeric(v) /\ (t.nums[i].exp < 0 => Num(v).n # 0)
  /\ \A i \in 1..Len(t.cats) : Str(Get(row, t.cats[i].name)) # "?"

Linear(t, row) ==
  RAdd(R(t.intercept.n, t.intercept.d),
    RAdd(RSumSeq([i \in 1..Len(t.nums) |->
                    RMul(R(t.nums[i].coef.n, t.nums[i].coef.d),
                         RPow(Num(Get(row, t.nums[i].name)), t.nums[i].exp))]),
         RSumSeq([i \in 1..Len(t.cats) |->
                    IF Str(Get(row, t.cats[i].name)) = t.cats[i].value
                    THEN R(t.cats[i].coef.n, t.cats[i].coef.d) ELSE RZero])))
=============================================================================
