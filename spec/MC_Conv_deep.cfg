INIT Init
NEXT Next
CONSTANTS
  Alphabet = {"0", "1", "9", ".", "-", "+", "e", "x", " "}
  MaxLen = 6
INVARIANTS AutomatonIsGrammar IntegersAreNumbers TruncIsInteger TruncIsPrefix Emit
CHECK_DEADLOCK FALSE
