SPECIFICATION Spec
INVARIANT RoundTrip
CONSTRAINT Emit
CHECK_DEADLOCK FALSE
