SPECIFICATION Spec
CONSTANTS
  Parts = {"broken"}
INVARIANTS StackDepth SameTree SkipNeutral BrokenFails Emit
CHECK_DEADLOCK FALSE
