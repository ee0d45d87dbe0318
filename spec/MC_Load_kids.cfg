SPECIFICATION Spec
CONSTANTS
  Parts = {"kids"}
INVARIANTS StackDepth SameTree SkipNeutral BrokenFails Emit
CHECK_DEADLOCK FALSE
