INIT Init
NEXT Next
CONSTANTS
  Alphabet <- Alpha6
  MaxLen = 6
  MaxCalls = 1
INVARIANTS HistoryFree NoPartial ItemChars Emit
CHECK_DEADLOCK FALSE
