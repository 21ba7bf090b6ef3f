SPECIFICATION Spec
INVARIANTS DataConforms NotSilent PathsTrue
CHECK_DEADLOCK FALSE
