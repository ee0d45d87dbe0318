SPECIFICATION Spec
CONSTANTS
  Parts = {"attrs"}
INVARIANTS StackDepth SameTree SkipNeutral BrokenFails Emit
CHECK_DEADLOCK FALSE
