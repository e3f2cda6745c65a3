INIT Init
NEXT Next
INVARIANTS Kept Exact Collect
POSTCONDITION Write
CHECK_DEADLOCK FALSE
