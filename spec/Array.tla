------------------------------- MODULE Array --------------------------------
(* Array text and its accessors (P17).  Text is a sequence of one-character     *)
(* strings after XML decoding; "T", "N" and "R" stand for tab, newline and       *)
(* carriage return, other upper-case letters for themselves.                    *)
EXTENDS Conv

Space == {" ", "T", "N", "R"}
Quote == "\""
Back  == "\\"

(* The tokenizer: mode "gap" between items, "word" in a bare item, "quoted"      *)
(* inside quotes, "escape" after a backslash inside quotes, "closed" after the    *)
(* closing quote.  open: the text is outside what the property speaks about      *)
(* (a quote touching a bare item, a backslash before a backslash).               *)
Tok0 == [mode |-> "gap", item |-> <<>>, items |-> <<>>, open |-> FALSE]

Push(s) == [s EXCEPT !.items = Append(@, s.item), !.item = <<>>, !.mode = "gap"]

TokStep(s, c) ==
  CASE s.mode = "gap" ->
         IF c \in Space THEN s
         ELSE IF c = Quote THEN [s EXCEPT !.mode = "quoted"]
         ELSE [s EXCEPT !.mode = "word", !.item = <<c>>]
    [] s.mode = "word" ->
         IF c \in Space THEN Push(s)
         ELSE IF c = Quote THEN [s EXCEPT !.open = TRUE]
         ELSE [s EXCEPT !.item = Append(@, c)]
    [] s.mode = "quoted" ->
         IF c = Quote THEN [s EXCEPT !.mode = "closed"]
         ELSE IF c = Back THEN [s EXCEPT !.mode = "escape"]
         ELSE [s EXCEPT !.item = Append(@, c)]
    [] s.mode = "escape" ->
         IF c = Quote THEN [s EXCEPT !.mode = "quoted", !.item = Append(@, c)]
         ELSE IF c = Back THEN [s EXCEPT !.mode = "quoted", !.open = TRUE]
         ELSE [s EXCEPT !.mode = "quoted", !.item = @ \o <<Back, c>>]
    [] s.mode = "closed" ->
         IF c \in Space THEN Push(s) ELSE [s EXCEPT !.open = TRUE]

Tokenise(text) == FoldLeft(TokStep, Tok0, text)

\* "ok" with items, "err" (unterminated quote) or "open"
Items(text) ==
  LET s == Tokenise(text) IN
  CASE s.open -> [st |-> "open", items |-> <<>>]
    [] s.mode \in {"quoted", "escape"} -> [st |-> "err", items |-> <<>>]
    [] s.mode = "gap" -> [st |-> "ok", items |-> s.items]
    [] OTHER -> [st |-> "ok", items |-> Append(s.items, s.item)]

-----------------------------------------------------------------------------
Types     == {"int", "real", "string", "date"}
Accessors == {"int", "real", "string"}

\* beyond floating point
Huge(s)   == LET d == Decimal(s) IN StripZeros(d.ds) # <<>> /\ Len(StripZeros(d.ds)) + d.sc > 308
IntOk(s)  == IsInteger(s) /\ InInt64(Decimal(s).neg, Trunc(Decimal(s)))

\* what one accessor call gives, whatever was called before
Access(type, acc, text) ==
  LET r == Items(text) IN
  IF acc # type THEN [st |-> "err", items |-> <<>>]
  ELSE IF r.st # "ok" THEN r
  ELSE IF type = "int" /\ \E i \in DOMAIN r.items : ~IntOk(r.items[i]) THEN [st |-> "err", items |-> <<>>]
  ELSE IF type = "real" /\ \E i \in DOMAIN r.items : ~IsNumber(r.items[i]) THEN [st |-> "err", items |-> <<>>]
  ELSE IF type = "real" /\ \E i \in DOMAIN r.items : Huge(r.items[i]) THEN [st |-> "open", items |-> <<>>]
  ELSE r

ItemOut(type, s) ==
  [s |-> s, neg |-> FALSE, ds |-> "", sc |-> 0]

NumOut(s) == LET d == Decimal(s) IN [s |-> s, neg |-> d.neg, ds |-> Join(d.ds), sc |-> d.sc]

Outcome(type, acc, text) ==
  LET r == Access(type, acc, text) IN
  [st |-> r.st, items |-> [i \in DOMAIN r.items |-> IF type = "string" THEN ItemOut(type, r.items[i]) ELSE NumOut(r.items[i])]]

\* The ways to write an item: quoted, or bare where it has no space, quote and is not empty.
EscapeC(c) == IF c = Quote THEN <<Back, Quote>> ELSE <<c>>
Quoted(item) == <<Quote>> \o FlattenSeq([i \in DOMAIN item |-> EscapeC(item[i])]) \o <<Quote>>
Bareable(item) == item # <<>> /\ \A i \in DOMAIN item : item[i] \notin Space \cup {Quote}
\* a backslash last or before a quote or backslash cannot be told from an escape
Quotable(item) == \A i \in DOMAIN item : item[i] = Back => i < Len(item) /\ item[i+1] \notin {Back, Quote}
=============================================================================
