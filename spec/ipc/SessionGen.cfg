INIT Init
NEXT Next
INVARIANTS Collect
POSTCONDITION Write
CHECK_DEADLOCK FALSE
