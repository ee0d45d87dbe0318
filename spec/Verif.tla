-------------------------------- MODULE Verif -------------------------------
(* Model verification (P11).  A table is [fields, rows]:                        *)
(*  fields: sequence of [field, col, out]  col: column as written, with prefix   *)
(*          [pre |-> TRUE/FALSE, col |-> name]; out: has a precision             *)
(*  rows: sequence of functions from column names to literals                    *)
EXTENDS Model

\* |e - p| <= 1e-5 |e|
Close(e, p) ==
  IF e.n = 0 THEN p.n = 0
  ELSE LET x == RAbs(RDiv(RSub(e, p), e))
       IN  x.n <= 20000 /\ x.n * 100000 <= x.d

RECURSIVE InputOf(_, _)
InputOf(fields, r) ==
  IF fields = <<>> THEN EmptyRow
  ELSE LET f == Head(fields) rest == InputOf(Tail(fields), r) IN
       IF ~f.out /\ f.col \in DOMAIN r THEN Put(rest, f.field, LitV(r[f.col])) ELSE rest

\* does the outcome reproduce one expected cell?  "yes", "no" or "open"
CellOk(o, field, l) ==
  IF field \notin DOMAIN o.out THEN "no"
  ELSE LET v == o.out[field] IN
       IF v.o = "num" THEN
         IF ~l.isnum THEN "no"
         ELSE IF v.e.x # "q" THEN "open"
         ELSE IF Close(LitR(l), R(v.e.n, v.e.d)) THEN "yes" ELSE "no"
       ELSE IF Len(v.ls) # 1 THEN "open"
       ELSE IF l.isnum THEN
         IF v.ls[1].isnum /\ Close(LitR(l), LitR(v.ls[1])) THEN "yes" ELSE "no"
       ELSE IF v.ls[1].s = l.s THEN "yes" ELSE "no"

RowVerdict(doc, ver, r) ==
  LET o     == EvalDoc(doc, InputOf(ver.fields, r))
      outs  == SelectSeq(ver.fields, LAMBDA f : f.out /\ f.col \in DOMAIN r)
      cells == [i \in 1..Len(outs) |-> CellOk(o, outs[i].field, r[outs[i].col])]
  IN  CASE o.st = "undef" -> "open"
        [] o.st = "err"   -> "no"
        [] OTHER -> IF \E i \in DOMAIN cells : cells[i] = "no" THEN "no"
                    ELSE IF \E i \in DOMAIN cells : cells[i] = "open" THEN "open" ELSE "yes"

\* ver: <<>> (no verification data) or <<table>>.  "ok", "err" or "undef"
Verdict(doc, ver) ==
  IF ver = <<>> THEN "ok"
  ELSE IF \E i \in 1..Len(ver[1].fields) : ~ver[1].fields[i].pre THEN "err"
  ELSE LET vs == [i \in 1..Len(ver[1].rows) |-> RowVerdict(doc, ver[1], ver[1].rows[i])]
       IN  IF \E i \in DOMAIN vs : vs[i] = "no" THEN
             \* rows before it that are left open would fail it too
             "err"
           ELSE IF \E i \in DOMAIN vs : vs[i] = "open" THEN "undef" ELSE "ok"
=============================================================================
