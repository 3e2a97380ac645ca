SPECIFICATION Spec
INVARIANTS EndsWell NothingEarly FailureTouchesNothingUnread
PROPERTY Terminates
CONSTRAINT Emit
CHECK_DEADLOCK FALSE
