------------------------------ MODULE MC_Array ------------------------------
(* Every array text over an alphabet up to a length, with an accessor history    *)
(* running over it: the accessor object keeps what it parsed (cache), fails       *)
(* without keeping anything, and must always give what the text prescribes.      *)
EXTENDS Array, Json
CONSTANTS Alphabet, MaxLen, MaxCalls
Alpha8 == {"a", "1", "-", " ", "\"", "\\", "&", "N"}
Alpha6 == {"a", "1", ".", " ", "\"", "\\"}
AlphaN == {"1", "9", "-", ".", "e", " "}
AlphaZ == {"1", "0", "8", "+", " "}
VARIABLES text, type, phase, cache, calls, last
vars == <<text, type, phase, cache, calls, last>>

NoCache == [t |-> "", items |-> <<>>]
Init == text = <<>> /\ type = "" /\ phase = "write" /\ cache = NoCache /\ calls = 0 /\ last = [acc |-> "", st |-> "", items |-> <<>>]

Write == /\ phase = "write" /\ Len(text) < MaxLen
         /\ \E c \in Alphabet : text' = Append(text, c)
         /\ UNCHANGED <<type, phase, cache, calls, last>>
Seal  == /\ phase = "write" /\ phase' = "read"
         /\ type' \in Types
         /\ UNCHANGED <<text, cache, calls, last>>
\* the object's own way: type check, cache, tokenise, convert, keep
Call(acc) ==
  /\ phase = "read" /\ calls < MaxCalls /\ calls' = calls + 1
  /\ UNCHANGED <<text, type, phase>>
  /\ IF acc # type THEN last' = [acc |-> acc, st |-> "err", items |-> <<>>] /\ UNCHANGED cache
     ELSE IF cache.t = acc THEN last' = [acc |-> acc, st |-> "ok", items |-> cache.items] /\ UNCHANGED cache
     ELSE LET r == Access(type, acc, text) IN
          /\ last' = [acc |-> acc, st |-> r.st, items |-> r.items]
          /\ cache' = IF r.st = "ok" THEN [t |-> acc, items |-> r.items] ELSE cache
Next == Write \/ Seal \/ \E acc \in Accessors : Call(acc)

\* the outcome never depends on the history
HistoryFree == last.acc # "" => LET r == Access(type, last.acc, text) IN last.st = r.st /\ last.items = r.items
NoPartial   == last.st = "err" => last.items = <<>>
\* no item holds white space unless it was quoted; nothing is lost or invented
ItemChars ==
  phase = "write" => LET r == Items(text) IN
    r.st = "ok" =>
      LET got == FlattenSeq(r.items)
          src == SelectSeq(text, LAMBDA c : c # Quote /\ c # Back)
      IN  /\ \A i \in DOMAIN got : \E j \in DOMAIN text : text[j] = got[i]
          /\ Len(SelectSeq(got, LAMBDA c : c # Back /\ c # Quote)) <= Len(src)
          /\ \A c \in Alphabet \ (Space \cup {Quote, Back}) :
               Len(SelectSeq(got, LAMBDA x : x = c)) = Len(SelectSeq(text, LAMBDA x : x = c))

Emit == calls = 0 /\ phase = "read" =>
  PrintT("@@" \o ToJson([type |-> type, text |-> text,
     exp |-> [acc \in Accessors |-> Outcome(type, acc, text)]]))
=============================================================================
