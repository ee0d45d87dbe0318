-------------------------------- MODULE Expr --------------------------------
(* Expressions, derived fields and missing value replacement (P09, P10, P15).  *)
(*  [e |-> "ref", f]   [e |-> "const", type, v]   [e |-> "apply", fn, args]     *)
(*  [e |-> "map", pairs, outcol, type, def, rows]                              *)
(*      pairs: sequence of [f, col]; def <<>> or <<literal>>;                  *)
(*      rows: sequence of functions from columns to literals                   *)
(*  [e |-> "unsup", name]   an expression kind the library does not implement   *)
(* A result is [st, v]: st "ok", "err", or "undef" where the properties do not  *)
(* determine it.                                                               *)
EXTENDS Vals, SequencesExt

Ok(v)   == [st |-> "ok", v |-> v]
ErrR    == [st |-> "err", v |-> NilV]
UndefR  == [st |-> "undef", v |-> NilV]

Arith == {"+", "-", "*", "/"}

\* The expression asks for nothing unsupported, wherever it stands.
RECURSIVE ExprOk(_)
ExprOk(x) ==
  CASE x.e = "ref"   -> TRUE
    [] x.e = "const" -> x.type = "double" /\ x.v.isnum
    [] x.e = "apply" ->
         /\ CASE x.fn = "sum" -> TRUE
              [] x.fn \in Arith -> Len(x.args) = 2
              [] x.fn \in {"isMissing", "isNotMissing"} -> Len(x.args) = 1
              [] x.fn = "if" -> Len(x.args) = 3
              [] OTHER -> FALSE
         /\ \A i \in 1..Len(x.args) : ExprOk(x.args[i])
    [] x.e = "map"   -> x.def = <<>> \/ LitOfType(x.def[1], x.type)
    [] OTHER         -> FALSE

MapRowMatches(x, r, row) ==
  /\ Len(x.pairs) > 0
  /\ \A i \in 1..Len(x.pairs) :
       LET v == Get(row, x.pairs[i].f) IN
       /\ ~IsNil(v)
       /\ x.pairs[i].col \in DOMAIN r
       /\ r[x.pairs[i].col].s = Str(v)

TypedLit(l, type) ==
  CASE type \in {"double", "float", "integer"} -> NumV(LitR(l))
    [] type = "boolean" -> BoolV(l.b = "true")
    [] OTHER -> LitV(l)

EvalMap(x, row) ==
  LET hits == SelectSeq(x.rows, LAMBDA r : MapRowMatches(x, r, row) /\ x.outcol \in DOMAIN r)
  IN
  IF \E i \in 1..Len(x.pairs) : Str(Get(row, x.pairs[i].f)) = "?" THEN UndefR
  ELSE IF hits # <<>> THEN
    IF \A i \in 1..Len(hits) : hits[i][x.outcol].s = hits[1][x.outcol].s
    THEN Ok(LitV(hits[1][x.outcol])) ELSE UndefR       \* contradictory table
  ELSE IF x.def # <<>> THEN
    IF LitOfType(x.def[1], x.type) THEN Ok(TypedLit(x.def[1], x.type)) ELSE ErrR
  ELSE IF Len(x.pairs) = 1 THEN Ok(Get(row, x.pairs[1].f))
  ELSE Ok(NilV)

RECURSIVE EvalExpr(_, _)
EvalExpr(x, row) ==
  CASE x.e = "ref"   -> Ok(Get(row, x.f))
    [] x.e = "const" -> IF x.type = "double" /\ x.v.isnum THEN Ok(NumV(LitR(x.v))) ELSE ErrR
    [] x.e = "map"   -> EvalMap(x, row)
    [] x.e = "apply" ->
      IF x.fn = "if" THEN
        IF Len(x.args) # 3 THEN ErrR
        ELSE LET c == EvalExpr(x.args[1], row) IN
             IF c.st # "ok" THEN c
             ELSE IF c.v.k # "bool" THEN UndefR
             ELSE IF AsBool(c.v) THEN EvalExpr(x.args[2], row) ELSE EvalExpr(x.args[3], row)
      ELSE IF x.fn \notin Arith \cup {"sum", "isMissing", "isNotMissing"} THEN ErrR
      ELSE IF x.fn \in Arith /\ Len(x.args) # 2 THEN ErrR
      ELSE IF x.fn \in {"isMissing", "isNotMissing"} /\ Len(x.args) # 1 THEN ErrR
      ELSE
        LET rs == [i \in 1..Len(x.args) |-> EvalExpr(x.args[i], row)]
            vs == [i \in 1..Len(x.args) |-> rs[i].v]
            present == SelectSeq(vs, LAMBDA v : ~IsNil(v))
            nums == \A i \in 1..Len(present) : Numeric(present[i])
        IN
        IF \E i \in DOMAIN rs : rs[i].st = "undef" THEN UndefR
        ELSE IF \E i \in DOMAIN rs : rs[i].st = "err" THEN ErrR
        ELSE CASE x.fn = "isMissing"    -> Ok(BoolV(IsNil(vs[1])))
               [] x.fn = "isNotMissing" -> Ok(BoolV(~IsNil(vs[1])))
               [] x.fn = "sum" ->
                    IF present = <<>> \/ ~nums THEN UndefR
                    ELSE Ok(NumV(RSumSeq([i \in 1..Len(present) |-> Num(present[i])])))
               [] OTHER ->
                    IF Len(present) < 2 THEN Ok(NilV)
                    ELSE IF ~nums THEN UndefR
                    ELSE LET a == Num(vs[1]) b == Num(vs[2]) IN
                         CASE x.fn = "+" -> Ok(NumV(RAdd(a, b)))
                           [] x.fn = "-" -> Ok(NumV(RSub(a, b)))
                           [] x.fn = "*" -> Ok(NumV(RMul(a, b)))
                           [] OTHER -> IF b.n = 0 THEN UndefR ELSE Ok(NumV(RDiv(a, b)))
    [] OTHER -> ErrR

\* The value of a derived field  [name, op, type, expr].
Derive(df, row) ==
  LET r == EvalExpr(df.expr, row) IN
  IF r.st # "ok" THEN r
  ELSE IF df.op # "continuous" \/ IsNil(r.v) THEN r
  ELSE IF Numeric(r.v) THEN Ok(NumV(Num(r.v))) ELSE UndefR

\* A row under preparation: [st, row].
RowOk(row) == [st |-> "ok", row |-> row]
Bad(st)    == [st |-> st, row |-> EmptyRow]

\* One derived field.  keep: a value computed by an enclosing model stays.
DeriveInto(prep, df, keep) ==
  IF prep.st # "ok" \/ (keep /\ Has(prep.row, df.name)) THEN prep
  ELSE LET r == Derive(df, prep.row) IN
       IF r.st # "ok" THEN Bad(r.st) ELSE RowOk(Put(prep.row, df.name, r.v))

RECURSIVE DeriveAll(_, _, _)
DeriveAll(prep, dfs, keep) ==
  IF dfs = <<>> THEN prep ELSE DeriveAll(DeriveInto(prep, Head(dfs), keep), Tail(dfs), keep)

\* Missing value replacement by the mining schema  [name, usage, repl].
RECURSIVE Impute(_, _)
Impute(row, schema) ==
  IF schema = <<>> THEN row
  ELSE LET f == Head(schema) IN
       Impute(IF f.repl # <<>> /\ Missing(row, f.name) THEN Put(row, f.name, LitV(f.repl[1])) ELSE row,
              Tail(schema))

\* The row a model reads: replacements first, then the derived fields of the
\* dictionary and of the enclosing models (td), then its own (lt).  Below
\* another model td is already computed; where computing it again would give
\* something else (an inner replacement, an output of an earlier segment),
\* the properties leave open which one the model sees.
Prepare(row, schema, td, lt, top) ==
  LET r0   == Impute(row, schema)
      keep == DeriveAll(RowOk(r0), td, TRUE)
      redo == DeriveAll(RowOk(r0), td, FALSE)
  IN  IF keep # redo THEN Bad("undef")
      ELSE DeriveAll(redo, lt, FALSE)
=============================================================================
