SPECIFICATION Spec
CONSTANTS
  Objects = {1, 2, 3}
  Rows = {1, 2}
  MaxLen = 5
INVARIANTS RowsUntouched ResultsPure Emit
PROPERTIES ReadyStays EvaluateReadOnly GivenKept
CHECK_DEADLOCK FALSE
