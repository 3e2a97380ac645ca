SPECIFICATION Spec
INVARIANTS Honest Reported Prefix
PROPERTIES FirstError Returns
CONSTRAINT Emit
CHECK_DEADLOCK FALSE
