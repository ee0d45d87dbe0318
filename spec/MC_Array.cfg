INIT Init
NEXT Next
CONSTANTS
  Alphabet <- Alpha8
  MaxLen = 4
  MaxCalls = 2
INVARIANTS HistoryFree NoPartial ItemChars Emit
CHECK_DEADLOCK FALSE
