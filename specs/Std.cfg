SPECIFICATION Spec
INVARIANT Sound
ALIAS Short
CONSTANT Expect <- SExpect
CONSTANT Holds <- SHolds
CHECK_DEADLOCK FALSE
