SPECIFICATION Spec
INVARIANTS Counted Dutiful NoResultAfterFailure NoDeadEnd
PROPERTY Finishes
CHECK_DEADLOCK FALSE
