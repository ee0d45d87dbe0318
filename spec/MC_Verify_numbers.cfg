CONSTANT
  Part = "numbers"
SPECIFICATION Spec
INVARIANTS Agree Sound
