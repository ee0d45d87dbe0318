CONSTANTS
  Part = "single"
  Cases <- AllCases
SPECIFICATION Spec
INVARIANTS Agree CallerSeen Imputed Entered PenaltyOnlyByDefault RunsInOrder
