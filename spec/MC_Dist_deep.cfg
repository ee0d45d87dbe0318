CONSTANTS
  Part = "dist"
  Counts = {0, 1, 2, 3}
  Probs = {9, 0, 1, 2, 3}
  Cases <- AllCases
SPECIFICATION Spec
INVARIANTS Agree CallerSeen Imputed Entered PenaltyOnlyByDefault RunsInOrder
