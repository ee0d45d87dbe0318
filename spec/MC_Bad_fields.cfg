CONSTANTS
  Part = "fields"
  Cases <- AllCases
SPECIFICATION Spec
INVARIANTS Agree CallerSeen Imputed Entered PenaltyOnlyByDefault RunsInOrder
