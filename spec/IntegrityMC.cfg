SPECIFICATION Spec
CONSTANTS Values = {0, 1, 40000, 65535}
  Changes = 2
INVARIANTS Quiet Told ToldHead Uncovered
CHECK_DEADLOCK FALSE
