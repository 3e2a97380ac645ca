INIT Init
NEXT Next
INVARIANTS Agree Within Prompt Emit
CHECK_DEADLOCK FALSE
