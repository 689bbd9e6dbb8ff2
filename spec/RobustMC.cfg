CONSTANT Names = {"a", "b", "c"}
SPECIFICATION Spec
INVARIANTS Truthful NothingBeforeAccepting Reported
PROPERTY Ends
CHECK_DEADLOCK FALSE
