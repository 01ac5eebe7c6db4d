SPECIFICATION Spec
INVARIANT Complete
INVARIANT Exact
INVARIANT Sound
INVARIANT Outputs
CHECK_DEADLOCK FALSE
