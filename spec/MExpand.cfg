SPECIFICATION Spec
INVARIANTS Denotes FailsExactly Idempotent NoGroups Untouched
CONSTRAINT Emit
CHECK_DEADLOCK FALSE
