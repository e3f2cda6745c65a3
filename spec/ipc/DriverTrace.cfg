INIT Init
NEXT Next
INVARIANT Reached
POSTCONDITION AllAccepted
CHECK_DEADLOCK FALSE
