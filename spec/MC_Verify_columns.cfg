CONSTANT
  Part = "columns"
SPECIFICATION Spec
INVARIANTS Agree Sound
