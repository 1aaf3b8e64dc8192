SPECIFICATION Spec
INVARIANT Sound
ALIAS Short
CHECK_DEADLOCK FALSE
