-------------------------------- MODULE Conv --------------------------------
(* Text, numbers and Go values (P16; also array items, P17).                    *)
(* Text is a sequence of one-character strings.  A decimal number is            *)
(* [neg, ds, sc]: sign, digits and scale, meaning (-) ds * 10^sc, so numbers of  *)
(* any size are exact.                                                          *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

Digit == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
DV(c) == CASE c = "0" -> 0 [] c = "1" -> 1 [] c = "2" -> 2 [] c = "3" -> 3 [] c = "4" -> 4
           [] c = "5" -> 5 [] c = "6" -> 6 [] c = "7" -> 7 [] c = "8" -> 8 [] c = "9" -> 9

Join(chars) == FoldLeft(LAMBDA a, c : a \o c, "", chars)

-----------------------------------------------------------------------------
(* The lexical automaton of decimal numbers.                                    *)
(*   start -> sign -> int -> dot/frac -> exp -> expsign -> expdig ; bad         *)
Scan0 == [q |-> "start", neg |-> FALSE, ds |-> <<>>, fr |-> 0, eneg |-> FALSE, ev |-> 0]

Step(st, c) ==
  CASE st.q = "bad" -> st
    [] c \in Digit ->
         IF st.q \in {"start", "sign", "int"} THEN [st EXCEPT !.q = "int", !.ds = Append(@, c)]
         ELSE IF st.q \in {"dot", "frac", "point"} THEN [st EXCEPT !.q = "frac", !.ds = Append(@, c), !.fr = @ + 1]
         ELSE [st EXCEPT !.q = "expdig", !.ev = IF @ > 9999 THEN @ ELSE 10 * @ + DV(c)]
    [] c \in {"+", "-"} ->
         IF st.q = "start" THEN [st EXCEPT !.q = "sign", !.neg = (c = "-")]
         ELSE IF st.q = "exp" THEN [st EXCEPT !.q = "expsign", !.eneg = (c = "-")]
         ELSE [st EXCEPT !.q = "bad"]
    [] c = "." ->
         IF st.q = "int" THEN [st EXCEPT !.q = "point"]
         ELSE IF st.q \in {"start", "sign"} THEN [st EXCEPT !.q = "dot"]
         ELSE [st EXCEPT !.q = "bad"]
    [] c \in {"e", "E"} ->
         IF st.q \in {"int", "frac", "point"} THEN [st EXCEPT !.q = "exp"] ELSE [st EXCEPT !.q = "bad"]
    [] OTHER -> [st EXCEPT !.q = "bad"]

Scan(chars) == FoldLeft(Step, Scan0, chars)
Accepting(st) == st.q \in {"int", "frac", "point", "expdig"}

\* the same grammar, declaratively: a split into sign, digits, fraction, exponent
AllIn(s, S) == \A i \in 1..Len(s) : s[i] \in S
IsMantissa(s) ==
  \/ s # <<>> /\ AllIn(s, Digit)
  \/ \E k \in 1..Len(s) : /\ s[k] = "."
                          /\ Len(s) > 1
                          /\ AllIn(SubSeq(s, 1, k-1), Digit)
                          /\ AllIn(SubSeq(s, k+1, Len(s)), Digit)
Unsigned(s) == IF s # <<>> /\ s[1] \in {"+", "-"} THEN Tail(s) ELSE s
IsNumber(s) ==
  LET u == Unsigned(s) IN
  \/ IsMantissa(u)
  \/ \E k \in 1..Len(u) : /\ u[k] \in {"e", "E"}
                          /\ IsMantissa(SubSeq(u, 1, k-1))
                          /\ LET x == Unsigned(SubSeq(u, k+1, Len(u))) IN x # <<>> /\ AllIn(x, Digit)
IsInteger(s) == LET u == Unsigned(s) IN u # <<>> /\ AllIn(u, Digit)

Decimal(chars) ==
  LET st == Scan(chars) IN
  [neg |-> st.neg, ds |-> st.ds, sc |-> (IF st.eneg THEN -st.ev ELSE st.ev) - st.fr]

-----------------------------------------------------------------------------
RECURSIVE StripZeros(_)
StripZeros(ds) == IF ds # <<>> /\ ds[1] = "0" THEN StripZeros(Tail(ds)) ELSE ds

Zeros(n) == [i \in 1..n |-> "0"]

\* truncation toward zero: the digits before the decimal point
Trunc(x) ==
  IF x.sc >= 0 THEN StripZeros(x.ds) \o (IF StripZeros(x.ds) = <<>> THEN <<>> ELSE Zeros(x.sc))
  ELSE IF Len(x.ds) + x.sc <= 0 THEN <<>>
  ELSE StripZeros(SubSeq(x.ds, 1, Len(x.ds) + x.sc))

\* digit sequences without leading zeros compare by length, then digit by digit
DLe(a, b) ==
  \/ Len(a) < Len(b)
  \/ /\ Len(a) = Len(b)
     /\ LET d == {i \in 1..Len(a) : a[i] # b[i]} IN
        d = {} \/ LET k == CHOOSE i \in d : \A j \in d : i <= j IN DV(a[k]) < DV(b[k])

MaxPos == <<"9","2","2","3","3","7","2","0","3","6","8","5","4","7","7","5","8","0","7">>
MaxNeg == <<"9","2","2","3","3","7","2","0","3","6","8","5","4","7","7","5","8","0","8">>
InInt64(neg, ds) == DLe(ds, IF neg THEN MaxNeg ELSE MaxPos)

\* big exponents would make digit sequences nobody needs
Small(x) == x.sc <= 40 \/ StripZeros(x.ds) = <<>>

-----------------------------------------------------------------------------
(* What the accessors give.  Go kinds: the integer and float types, "string",    *)
(* "bool", "nil", "other".                                                      *)
\* [num, neg, ds, sc] is the number for Float64 and Float32 (rounded there);
\* int: the digits of Int64, or "open" where no int64 is prescribed
Zero == [neg |-> FALSE, ds |-> <<>>, sc |-> 0]

\* types with a String method of their own: chars is what it returns
Stringers == {"stringer", "stringerp", "stringern", "duration"}

NumberOf(g, chars) ==
  CASE g \in {"bool", "nil"} \cup Stringers -> Zero
    [] g = "string" -> IF IsNumber(chars) THEN Decimal(chars) ELSE Zero
    [] OTHER -> Decimal(chars)

Int64Of(x) ==
  IF ~Small(x) THEN "open"
  ELSE LET t == Trunc(x) IN
       IF t = <<>> THEN "0"
       ELSE IF ~InInt64(x.neg, t) THEN "open"
       ELSE (IF x.neg THEN "-" ELSE "") \o Join(t)

\* printed form: text unchanged, integers and booleans by their digits; floats are left to Go's %v
TextOf(g, chars) ==
  CASE g \in {"string", "bool"} \cup Stringers -> Join(chars)
    [] g = "nil" -> "<nil>"
    [] g \in {"float32", "float64"} -> "?"
    [] OTHER -> LET t == Int64Of(Decimal(chars)) d == Decimal(chars) IN
                IF t # "open" THEN t ELSE (IF d.neg THEN "-" ELSE "") \o Join(Trunc(d))

Prescribe(g, chars) ==
  LET x == NumberOf(g, chars) IN
  [g |-> g, text |-> Join(chars), neg |-> x.neg, ds |-> Join(x.ds), sc |-> x.sc,
   int |-> IF g \in Stringers THEN "any" ELSE Int64Of(x), plain |-> (g # "string" \/ IsInteger(chars)), str |-> TextOf(g, chars), bool |-> (g = "bool" /\ Join(chars) = "true")]
=============================================================================
