SPECIFICATION Spec
INVARIANT Functional
CONSTRAINT Emit
CHECK_DEADLOCK FALSE
