SPECIFICATION Spec
CONSTANTS MaxMaps = 2
          MaxPlanes = 1
          MaxImages = 1
INVARIANT SameMeaning
PROPERTY Settled
CHECK_DEADLOCK FALSE
