SPECIFICATION Spec
INVARIANTS Whole NoPart
PROPERTY Returns
CONSTRAINT Emit
CHECK_DEADLOCK FALSE
