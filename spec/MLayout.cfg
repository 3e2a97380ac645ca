SPECIFICATION Spec
VIEW View
INVARIANT SameRules
CONSTRAINT Emit
CHECK_DEADLOCK FALSE
