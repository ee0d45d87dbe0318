INIT Init
NEXT Next
CONSTANTS
  Alphabet <- AlphaZ
  MaxLen = 5
  MaxCalls = 2
INVARIANTS HistoryFree NoPartial ItemChars Emit
CHECK_DEADLOCK FALSE
