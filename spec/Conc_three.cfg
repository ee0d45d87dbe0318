SPECIFICATION Spec
CONSTANTS
  Procs = {1, 2, 3}
  Objects = {1, 2, 3}
  Rows = {1, 2}
  K = 1
  InPlace = FALSE
INVARIANTS RaceFree RowsUntouched AsAlone Emit
CHECK_DEADLOCK FALSE
