SPECIFICATION Spec
CONSTANT MaxLen = 5
INVARIANTS Guarded Emit
PROPERTY Stays
CHECK_DEADLOCK FALSE
