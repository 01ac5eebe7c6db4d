SPECIFICATION Spec
INVARIANT Correct
INVARIANT Invariant
INVARIANT Agrees
CHECK_DEADLOCK FALSE
