INIT Init
NEXT Next
INVARIANT Sound
ALIAS Short
CHECK_DEADLOCK FALSE
