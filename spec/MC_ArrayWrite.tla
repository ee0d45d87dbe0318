---------------------------- MODULE MC_ArrayWrite ----------------------------
(* Item lists and every way to write them down: reading gives the items back.    *)
EXTENDS Array, Json
CONSTANTS MaxItems
Words == {<<"a">>, <<"a", " ", "b">>, <<>>, <<"a", "\"", "b">>, <<"a", "\\", "b">>, <<"'">>, <<"$", "a">>, <<"&">>, <<"<", "E">>, <<"`">>, <<";", "|">>,
          <<"1", "2">>, <<"-", "3">>, <<"1", ".", "5">>, <<"1", "e", "2">>, <<"9","2","2","3","3","7","2","0","3","6","8","5","4","7","7","5","8","0","8">>, <<"N">>}
Seps == {<<" ">>, <<"N", " ">>, <<"R">>}
VARIABLES items, text
Init == items = <<>> /\ text \in {<<>>, <<" ">>, <<"N", "T">>}
Ways(w) == (IF Bareable(w) THEN {w} ELSE {}) \cup (IF Quotable(w) THEN {Quoted(w)} ELSE {})
Next == /\ Len(items) < MaxItems
        /\ \E w \in Words : \E x \in Ways(w) : \E s \in Seps :
             /\ items' = Append(items, w)
             /\ text' = text \o x \o s
ReadsBack == LET r == Items(text) IN r.st = "ok" /\ r.items = items
Emit == \A type \in Types :
  PrintT("@@" \o ToJson([type |-> type, text |-> text, exp |-> [acc \in Accessors |-> Outcome(type, acc, text)]]))
=============================================================================
