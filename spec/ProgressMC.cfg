CONSTANTS Size = 30
  Planes = 2
SPECIFICATION Spec
INVARIANTS Growing Complete OnePerPlane CountedOnce NeverFull
PROPERTY AllMade
CHECK_DEADLOCK FALSE
