INIT Init
NEXT Next
INVARIANT Collect
POSTCONDITION Write
CHECK_DEADLOCK FALSE
