SPECIFICATION Spec
CONSTANTS Alphabet = {"MAP", "AUTHOR", "BODY", "EQ_RAD", "POL_RAD", "FLATTENING", "ROTATION=PROGRADE", "COMMENT"}
  Most = 5
INVARIANTS Hopeful Earliest Finds
PROPERTY Stays
CHECK_DEADLOCK FALSE
