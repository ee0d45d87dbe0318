CONSTANT
  Part = "words"
SPECIFICATION Spec
INVARIANTS Agree Sound
