CONSTANTS Deep = 4
SPECIFICATION Spec
INVARIANTS SpanOfGiven WithinType HoldsAll NoneOutside MergeLaws
CHECK_DEADLOCK FALSE
