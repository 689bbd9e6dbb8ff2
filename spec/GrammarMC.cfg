INIT Init
NEXT Next
VIEW View
INVARIANTS Alive Sound Note
CHECK_DEADLOCK FALSE
