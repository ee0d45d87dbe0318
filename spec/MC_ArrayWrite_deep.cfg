INIT Init
NEXT Next
CONSTANTS
  MaxItems = 3
INVARIANTS ReadsBack Emit
CHECK_DEADLOCK FALSE
