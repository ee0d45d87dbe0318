SPECIFICATION Spec
CONSTANTS
  Parts = {"pairs"}
INVARIANTS StackDepth SameTree SkipNeutral BrokenFails Emit
CHECK_DEADLOCK FALSE
