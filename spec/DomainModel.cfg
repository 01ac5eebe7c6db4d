SPECIFICATION Spec
INVARIANT Distinct
INVARIANT Apart
CHECK_DEADLOCK FALSE
