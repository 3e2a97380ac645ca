SPECIFICATION Spec
INVARIANTS Readable Composes ItemsAgree
CONSTRAINT Emit
CHECK_DEADLOCK FALSE
