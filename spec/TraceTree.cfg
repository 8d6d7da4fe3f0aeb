SPECIFICATION TSpec
INVARIANT Sound
CHECK_DEADLOCK FALSE
