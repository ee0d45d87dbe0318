SPECIFICATION Spec
CONSTANTS
  Procs = {1, 2}
  Objects = {1, 2, 3}
  Rows = {1, 2}
  K = 4
  InPlace = FALSE
INVARIANTS RaceFree RowsUntouched AsAlone Emit
CHECK_DEADLOCK FALSE
