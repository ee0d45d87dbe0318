------------------------------ MODULE MC_Conv ------------------------------
(* Every text over a small alphabet, read as a number (P16).  The automaton     *)
(* must agree with the grammar; each text is emitted with what the accessors     *)
(* of a string value must give.                                                 *)
EXTENDS Conv, Json
CONSTANTS Alphabet, MaxLen
VARIABLES text, st
Init == text = <<>> /\ st = Scan0
Next == /\ Len(text) < MaxLen
        /\ \E c \in Alphabet : text' = Append(text, c) /\ st' = Step(st, c)

AutomatonIsGrammar == Accepting(st) <=> IsNumber(text)
IntegersAreNumbers == IsInteger(text) => Accepting(st) /\ Decimal(text).sc = 0
TruncIsInteger     == Accepting(st) /\ Small(Decimal(text)) => LET t == Trunc(Decimal(text)) IN t = <<>> \/ t[1] # "0"
\* truncation never exceeds the number: dropping digits only
TruncIsPrefix      == Accepting(st) /\ Decimal(text).sc < 0 =>
                        LET d == Decimal(text) t == Trunc(d) IN
                        IsPrefix(t, StripZeros(d.ds))

Emit == PrintT("@@" \o ToJson(Prescribe("string", text)))
=============================================================================
