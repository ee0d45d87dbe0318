------------------------------ MODULE MC_Verify ------------------------------
(* Verification as a state machine that checks one expected cell per step; every    *)
(* expected value around the tolerance, of either sign and kind, in every position   *)
(* of tables with up to three rows and two outputs, and every way the table's columns *)
(* may be declared.                                                              *)
EXTENDS Docs, Json
CONSTANT Part

VARIABLES doc, ver, i, j, open, verdict, mode
vars == <<doc, ver, i, j, open, verdict, mode>>

DD == <<Data("a", "double"), Data("b", "double"), [name |-> "t", type |-> "string", values |-> <<>>], Data("s", "string")>>
\* out = a
Echo == MkDoc(DD, <<>>, RegM("regression", <<Active("a")>>, "none", <<TableR(RZero, "", <<NumT("a", ROne, 1)>>)>>, <<[name |-> "out", feature |-> "predictedValue", value |-> ""]>>))
\* label and probabilities by text
Labels == MkDoc(DD, <<>>,
  TreeM("classification", <<Active("s"), TargetF("t")>>, Node("r", Simple("s", "notEqual", TextL("none")), TextL("a"),
    <<Node("2", Simple("s", "equal", TextL("one")), IntL(1), <<>>), Node("3", Simple("s", "equal", TextL("up")), TextL("A"), <<>>),
      Node("4", Simple("s", "equal", TextL("x")), NumL(5, 4, "1.25"), <<>>)>>)))
\* two outputs: the first and second category
Both == MkDoc(DD, <<>>, RegM("classification", <<Active("a")>>, "none", <<TableR(RZero, "yes", <<NumT("a", ROne, 1)>>), TableR(RZero, "no", <<>>)>>,
  <<OutP("p", "yes"), OutP("q", "no")>>))

F(field, col, out) == [field |-> field, col |-> col, pre |-> TRUE, out |-> out]
Table(fields, rs) == [fields |-> fields, rows |-> rs]
WithVer(d, v) == [d EXCEPT !.ver = <<v>>]

\* text of a dyadic number n/d
Dec(n, d, s) == NumL(n, d, s)
\* expectations e and what is predicted p around them (1e5 times a power of two plus eighths)
Pairs ==
  {<<NumL(100000, 1, "100000"), NumL(800000 + k, 8, "100000" \o s)>> : <<k, s>> \in {<<0, "">>, <<7, ".875">>, <<4, ".5">>}}
  \cup {<<NumL(100000, 1, "1e5"), NumL(n, 8, s)>> : <<n, s>> \in {<<800009, "100001.125">>, <<799993, "99999.125">>, <<799991, "99998.875">>, <<800080, "100010">>, <<-800000, "-100000">>, <<0, "0">>}}
  \cup {<<NumL(-100000, 1, "-100000"), NumL(n, 8, s)>> : <<n, s>> \in {<<-800000, "-1e5">>, <<-800009, "-100001.125">>, <<-800007, "-100000.875">>, <<-799993, "-99999.125">>, <<-799991, "-99998.875">>, <<800000, "100000">>, <<-8000, "-1000">>}}
  \cup {<<NumL(3125, 32, "97.65625"), NumL(n, 8192, s)>> : <<n, s>> \in {<<800000, "97.65625">>, <<800007, "97.6571044921875">>, <<800009, "97.6573486328125">>, <<799991, "97.6551513671875">>, <<799993, "97.6553955078125">>}}
  \cup {<<IntL(0), NumL(n, d, s)>> : <<n, d, s>> \in {<<0, 1, "0">>, <<1, 1024, "0.0009765625">>, <<-1, 1024, "-0.0009765625">>, <<1, 1, "1">>}}
  \cup {<<NumL(1, 4, "0.25"), NumL(n, d, s)>> : <<n, d, s>> \in {<<1, 4, "0.25">>, <<0, 1, "0">>, <<1, 2, "0.5">>, <<-1, 4, "-0.25">>}}
  \cup {<<NumL(-1, 4, "-0.25"), NumL(n, d, s)>> : <<n, d, s>> \in {<<-1, 4, "-2.5e-1">>, <<-1, 8, "-0.125">>, <<-3, 8, "-0.375">>, <<-1, 2, "-0.5">>, <<1, 4, "0.25">>}}
  \cup {<<TextL("yes"), IntL(1)>>, <<TextL(""), IntL(1)>>, <<TextL("0.2.5"), NumL(1, 4, "0.25")>>, <<BoolL("true", "true"), IntL(1)>>}

Good == {[a |-> IntL(3), out |-> IntL(3)], [a |-> NumL(-1, 2, "-0.5"), out |-> NumL(-1, 2, "-5e-1")]}
EchoF == <<F("a", "a", FALSE), F("out", "out", TRUE)>>
\* one row; and that row as the first, second or last of several
Numbers(z) ==
  {WithVer(Echo, Table(EchoF, <<[a |-> pr[2], out |-> pr[1]]>>)) : pr \in Pairs}
  \cup {WithVer(Echo, Table(EchoF, rs)) : rs \in UNION {{<<[a |-> pr[2], out |-> pr[1]], g>>, <<g, [a |-> pr[2], out |-> pr[1]]>>, <<g, [a |-> pr[2], out |-> pr[1]], g>>, <<g, g, [a |-> pr[2], out |-> pr[1]]>>} : pr \in Pairs, g \in Good}}
  \cup {WithVer(Echo, Table(EchoF, <<>>)), Echo, WithVer(Echo, Table(EchoF, <<[out |-> IntL(0)]>>)), WithVer(Echo, Table(EchoF, <<[a |-> IntL(1)]>>)), WithVer(Echo, Table(<<>>, <<[a |-> IntL(1)]>>))}

Texts == {TextL("a"), TextL("A"), TextL("b"), IntL(1), NumL(1, 1, "1.0"), NumL(1, 1, "1e0"), IntL(2), NumL(5, 4, "1.25"), NumL(5, 4, "12.5e-1")}
Inputs == {TextL("none"), TextL("one"), TextL("up"), TextL("x"), TextL("other")}
LabelF(more) == <<F("s", "in", FALSE), F("t", "class", TRUE)>> \o more
Words(z) ==
  {WithVer(Labels, Table(LabelF(<<>>), <<[in |-> s, class |-> l]>>)) : s \in Inputs, l \in Texts}
  \cup {WithVer(Labels, Table(LabelF(<<F(f, "pp", TRUE)>>), <<[in |-> s, class |-> l, pp |-> p]>>)) :
          s \in Inputs, l \in {TextL("a"), TextL("A")}, f \in {"probability(a)", "probability(A)", "nothing"}, p \in {IntL(1), NumL(1, 2, "0.5"), TextL("a")}}
  \cup {WithVer(Labels, Table(LabelF(<<>>), <<[class |-> l]>>)) : l \in Texts}       \* the input is missing: no prediction
  \cup {WithVer(Labels, Table(LabelF(<<>>), <<[in |-> TextL("other"), class |-> TextL("a")], [in |-> s, class |-> l]>>)) : s \in Inputs, l \in {TextL("a"), IntL(1)}}

\* columns in every order, one of them without the prefix, expectations right or wrong
P3 == {<<1, 2, 3>>, <<3, 1, 2>>, <<2, 3, 1>>}
Cols == <<F("a", "in", FALSE), F("p", "first", TRUE), F("q", "second", TRUE)>>
Columns(z) ==
  {WithVer(Both, Table([k \in 1..3 |-> IF perm[k] = u THEN [Cols[perm[k]] EXCEPT !.pre = FALSE] ELSE Cols[perm[k]]],
                       <<[in |-> a, first |-> x, second |-> y]>>)) :
     perm \in P3, u \in 0..3, a \in {IntL(0), NumL(1, 4, "0.25")}, x \in {NumL(1, 4, "0.25"), IntL(0)}, y \in {NumL(3, 4, "0.75"), IntL(1)}}
  \cup {WithVer(Both, Table(Cols, <<[in |-> NumL(1, 4, "0.25"), first |-> NumL(1, 4, "0.25"), second |-> NumL(3, 4, "0.75")], r>>)) :
     r \in {[in |-> NumL(1, 4, "0.25"), first |-> NumL(1, 4, "0.25")], [in |-> NumL(1, 4, "0.25"), second |-> NumL(1, 4, "0.25")],
            [in |-> NumL(1, 4, "0.25"), other |-> NumL(1, 4, "0.25")], [first |-> NumL(1, 4, "0.25")], [in |-> TextL("")], [in |-> IntL(1), first |-> IntL(1), second |-> IntL(0)]}}

Docs0 == CASE Part = "numbers" -> Numbers(0) [] Part = "words" -> Words(0) [] OTHER -> Columns(0)

-----------------------------------------------------------------------------
Init ==
  /\ doc \in Docs0
  /\ ver = IF doc.ver = <<>> THEN Table(<<>>, <<>>) ELSE doc.ver[1]
  /\ i = 0 /\ j = 0 /\ open = FALSE /\ verdict = "none" /\ mode \in {"run", "print"}

Outputs == SelectSeq(ver.fields, LAMBDA f : f.out /\ f.col \in DOMAIN ver.rows[i])
Outcome == EvalDoc(doc, InputOf(ver.fields, ver.rows[i]))
Halt(v) == verdict' = v /\ UNCHANGED <<doc, ver, i, j, open, mode>>
Move(ni, nj, o) == i' = ni /\ j' = nj /\ open' = o /\ UNCHANGED <<doc, ver, verdict, mode>>
Running == mode = "run" /\ verdict = "none"

Columns0 ==
  /\ Running /\ i = 0
  /\ IF \E k \in 1..Len(ver.fields) : ~ver.fields[k].pre THEN Halt("err") ELSE Move(1, 0, open)
Row ==
  /\ Running /\ i > 0 /\ i <= Len(ver.rows) /\ j = 0
  /\ CASE Outcome.st = "err" -> Halt("err")
       [] Outcome.st = "undef" -> Move(i + 1, 0, TRUE)
       [] OTHER -> Move(i, 1, open)
Cell ==
  /\ Running /\ i > 0 /\ i <= Len(ver.rows) /\ j > 0
  /\ IF j > Len(Outputs) THEN Move(i + 1, 0, open)
     ELSE LET k == CellOk(Outcome, Outputs[j].field, ver.rows[i][Outputs[j].col]) IN
          IF k = "no" THEN Halt("err") ELSE Move(i, j + 1, open \/ k = "open")
Finish == Running /\ i > Len(ver.rows) /\ Halt(IF open THEN "undef" ELSE "ok")
PrintCase ==
  /\ mode = "print"
  /\ PrintT("@@" \o ToJson([case |-> [doc |-> doc, rows |-> <<EmptyRow>>],
                           exp |-> [id |-> "", early |-> MayRefuse(doc), evals |-> <<EvalDoc(doc, EmptyRow)>>, verify |-> Verdict(doc, doc.ver)]]))
  /\ mode' = "printed" /\ UNCHANGED <<doc, ver, i, j, open, verdict>>
Stopped == (verdict # "none" \/ mode = "printed") /\ UNCHANGED vars
Next == Columns0 \/ Row \/ Cell \/ Finish \/ PrintCase \/ Stopped
Spec == Init /\ [][Next]_vars

\* The machine's verdict is Verif.tla's.
Agree == mode = "run" /\ verdict # "none" => verdict = Verdict(doc, doc.ver)
\* A table of what the model itself predicts is accepted.
Sound == verdict = "err" => ver.rows # <<>> \/ \E k \in 1..Len(ver.fields) : ~ver.fields[k].pre
=============================================================================
