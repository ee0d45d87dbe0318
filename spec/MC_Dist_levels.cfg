CONSTANTS
  Part = "levels"
  Counts = {0, 1, 3}
  Probs = {9, 0, 1, 2}
  Cases <- AllCases
SPECIFICATION Spec
INVARIANTS Agree CallerSeen Imputed Entered PenaltyOnlyByDefault RunsInOrder
