SPECIFICATION Spec
INVARIANT Sound
ALIAS Short
CONSTANT Expect <- LExpect
CONSTANT Holds <- LHolds
CHECK_DEADLOCK FALSE
