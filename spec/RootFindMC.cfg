CONSTANTS N = 40
  MaxNewton = 6
  MaxIter = 12
SPECIFICATION Spec
INVARIANTS Bracketed Found NeverStuck
PROPERTY Terminates
CHECK_DEADLOCK FALSE
