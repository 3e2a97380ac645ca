SPECIFICATION Spec
INVARIANTS Functional NeverStuck
PROPERTY Frozen
CONSTRAINT Emit
CHECK_DEADLOCK FALSE
