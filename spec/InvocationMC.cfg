SPECIFICATION Spec
CONSTANT Most = 3
INVARIANTS InformOrMake MadeMeansRead OneConfiguration OldIgnored HomeOnlyIfUnset SilentMeansMade BadMakesNothing SpoiledMakesNothing OptionsAnywhere LastNamed Ends
CHECK_DEADLOCK FALSE
