SPECIFICATION Spec
INVARIANT Sound
ALIAS Short
CONSTANT Expect <- HExpect
CONSTANT Holds <- HHolds
CHECK_DEADLOCK FALSE
