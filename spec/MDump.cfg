INIT Init
NEXT Next
INVARIANTS Closed Emit
PROPERTIES Shows
CHECK_DEADLOCK FALSE
