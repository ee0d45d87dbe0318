SPECIFICATION Spec
CONSTANTS
  Objects = {1, 2, 3}
  Rows = {1, 2, 3, 4}
  MaxLen = 30
INVARIANTS RowsUntouched ResultsPure Emit
CHECK_DEADLOCK FALSE
