SPECIFICATION Spec
INVARIANTS Apart Whole
CONSTRAINT Emit
CHECK_DEADLOCK FALSE
