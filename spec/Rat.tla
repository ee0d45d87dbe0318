-------------------------------- MODULE Rat --------------------------------
(* Exact rational arithmetic on records [n |-> Int, d |-> Int \ {0}], kept     *)
(* normalised with d > 0.  All numbers of the specification are rationals, so  *)
(* no rounding hides in the model; TLC reports an overflow instead of wrapping. *)
EXTENDS Integers, Sequences

RECURSIVE GCD(_, _)
GCD(a, b) == IF b = 0 THEN a ELSE GCD(b, a % b)

RAbsI(i) == IF i < 0 THEN -i ELSE i

\* The normalised rational n/d.
R(n, d) == LET s == IF d < 0 THEN -1 ELSE 1
               g == GCD(RAbsI(n), RAbsI(d))
           IN  [n |-> (s * n) \div g, d |-> RAbsI(d) \div g]

RZero == [n |-> 0, d |-> 1]
ROne  == [n |-> 1, d |-> 1]
RInt(i) == [n |-> i, d |-> 1]

\* Add over the least common denominator, so that intermediate values stay small.
RAdd(a, b) == IF a.n = 0 THEN R(b.n, b.d)
              ELSE IF b.n = 0 THEN R(a.n, a.d)
              ELSE LET g == GCD(a.d, b.d)
                   IN  R(a.n * (b.d \div g) + b.n * (a.d \div g), (a.d \div g) * b.d)
RNeg(a)    == [n |-> -a.n, d |-> a.d]
RSub(a, b) == RAdd(a, RNeg(b))
\* Cross-cancel before multiplying, so that intermediate products stay small.
RMul(a, b) == IF a.n = 0 \/ b.n = 0 THEN RZero
              ELSE LET x == R(a.n, b.d)
                       y == R(b.n, a.d)
                   IN  R(x.n * y.n, x.d * y.d)
RDiv(a, b) == RMul(a, R(b.d, b.n))          \* b # 0
RLt(a, b)  == LET g == GCD(a.d, b.d) IN a.n * (b.d \div g) < b.n * (a.d \div g)
RLe(a, b)  == ~RLt(b, a)
REq(a, b)  == R(a.n, a.d) = R(b.n, b.d)
RAbs(a)    == [n |-> RAbsI(a.n), d |-> a.d]

RECURSIVE RPow(_, _)
RPow(a, e) == IF e = 0 THEN ROne
              ELSE IF e < 0 THEN RDiv(ROne, RPow(a, -e))
              ELSE RMul(a, RPow(a, e - 1))

RECURSIVE RSumSeq(_)
RSumSeq(s) == IF s = <<>> THEN RZero ELSE RAdd(Head(s), RSumSeq(Tail(s)))

\* truncation toward zero
RTrunc(a) == IF a.n >= 0 THEN a.n \div a.d ELSE -((-a.n) \div a.d)
=============================================================================
