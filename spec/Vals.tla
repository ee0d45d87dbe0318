-------------------------------- MODULE Vals --------------------------------
(* The values a caller may put in a row, as the implementation's typed views   *)
(* of them (numeric, text, boolean, missing).                                  *)
(*                                                                             *)
(*  number  [k |-> "num", n, d, s]      s: printed form                        *)
(*  text    [k |-> "str", s, isnum, n, d]   n/d: its numeric reading if isnum   *)
(*  boolean [k |-> "bool", b, s]                                               *)
(*  no value [k |-> "nil"]                                                     *)
(*                                                                             *)
(* A row is a function from field names to values; an absent key and a key with *)
(* no value are both "missing".                                                *)
EXTENDS Rat, FiniteSets, TLC

NilV      == [k |-> "nil", s |-> "<nil>"]
\* a computed number; its printed form is modelled for non-zero integers only ("?": not modelled)
NumV(r)   == [k |-> "num", n |-> r.n, d |-> r.d,
              s |-> IF r.d = 1 /\ r.n # 0 THEN ToString(r.n) ELSE "?"]
BoolV(b)  == [k |-> "bool", b |-> b, s |-> IF b THEN "true" ELSE "false"]

IsNil(v)  == v.k = "nil"

\* numeric reading: numbers and numeric text read as themselves, anything else as 0
Num(v) == CASE v.k = "num" -> R(v.n, v.d)
            [] v.k = "str" -> IF v.isnum THEN R(v.n, v.d) ELSE RZero
            [] OTHER       -> RZero

\* boolean reading of the accessor: true exactly for the boolean true
AsBool(v) == v.k = "bool" /\ v.b

Str(v) == v.s

EmptyRow == [x \in {} |-> NilV]

Has(row, f)     == f \in DOMAIN row
Get(row, f)     == IF Has(row, f) THEN row[f] ELSE NilV
Missing(row, f) == IsNil(Get(row, f))
Put(row, f, v)  == [x \in DOMAIN row \cup {f} |-> IF x = f THEN v ELSE row[x]]

\* the value of literal text (attribute or table cell) as a row value
LitV(l) == [k |-> "str", s |-> l.s, isnum |-> l.isnum, n |-> l.n, d |-> l.d]

\* does literal text denote a value of the data type?
LitOfType(l, type) == CASE type \in {"double", "float"} -> l.isnum
                        [] type = "integer"             -> l.isnum /\ l.d = 1 /\ l.isint
                        [] type = "boolean"             -> l.b # "no"
                        [] type = "string"              -> TRUE
                        [] OTHER                        -> FALSE

LitR(l) == R(l.n, l.d)

\* Is a present value one the property speaks about for a field of this type?
\* (numbers and numeric text for numeric fields, text for strings, ...)
Usable(v, type) ==
  CASE type \in {"double", "float", "integer"} -> v.k = "num" \/ (v.k = "str" /\ v.isnum)
    [] type = "boolean" -> v.k = "bool" \/ (v.k = "str" /\ v.s \in {"true", "false", "maybe"})
    [] OTHER -> v.s # "?"

Numeric(v) == v.k = "num" \/ (v.k = "str" /\ v.isnum)

\* typed equality of a present row value with a literal of the field's type
EqTyped(v, l, type) ==
  CASE type \in {"double", "float", "integer"} -> REq(Num(v), LitR(l))
    [] type = "boolean" -> IF v.k = "bool" THEN v.b = (l.b = "true") ELSE Str(v) = l.b
    [] OTHER -> Str(v) = l.s
=============================================================================
