SPECIFICATION Spec
INVARIANTS Own Emit
CHECK_DEADLOCK FALSE
