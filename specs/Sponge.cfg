SPECIFICATION Spec
INVARIANT Sound
ALIAS Short
CONSTANT Expect <- OExpect
CONSTANT Holds <- OHolds
CHECK_DEADLOCK FALSE
