SPECIFICATION Spec
INVARIANTS InOrder Complete Exactly
CONSTRAINT Emit
CHECK_DEADLOCK FALSE
