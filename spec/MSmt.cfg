SPECIFICATION Spec
INVARIANTS WellFormed MeansIt
CONSTRAINT Emit
CHECK_DEADLOCK FALSE
