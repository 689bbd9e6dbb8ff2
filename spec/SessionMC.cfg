SPECIFICATION Spec
CONSTANTS Names = {"m", "n"}
          MaxInputs = 2
          MaxMaps = 2
INVARIANTS NothingBeforeAccepted NothingIfRefused LastWins StatusTells Untouched Known Ends
CHECK_DEADLOCK FALSE
