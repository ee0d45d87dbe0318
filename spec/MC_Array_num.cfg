INIT Init
NEXT Next
CONSTANTS
  Alphabet <- AlphaN
  MaxLen = 5
  MaxCalls = 3
INVARIANTS HistoryFree NoPartial ItemChars Emit
CHECK_DEADLOCK FALSE
