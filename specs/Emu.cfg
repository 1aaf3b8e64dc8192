SPECIFICATION ESpec
INVARIANT Sound
ALIAS Short
CONSTANT Expect <- EExpect
CONSTANT Holds <- EHolds
CHECK_DEADLOCK FALSE
