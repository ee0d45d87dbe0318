INIT Init
NEXT Next
CONSTANTS
  MaxItems = 2
INVARIANTS ReadsBack Emit
CHECK_DEADLOCK FALSE
