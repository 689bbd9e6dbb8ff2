SPECIFICATION Spec
CONSTANTS Keys = {"author"}
          Values = {"a", "b"}
          TypesUsed = {"SHORT", "LONG", "FLOAT"}
          MaxSources = 3
INVARIANTS Meaning UserWins FromSomewhere OrderFree FloatWins
CHECK_DEADLOCK FALSE
