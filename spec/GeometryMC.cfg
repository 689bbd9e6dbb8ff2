CONSTANTS W = 3
  H = 2
  Step = 10
  Ratios = {100, 93, 50}
SPECIFICATION Spec
INVARIANTS Proper Sense Kept OnSurface Inverse NormalUp Curved ToAxis Overhead Below Enlarged
CHECK_DEADLOCK FALSE
