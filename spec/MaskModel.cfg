SPECIFICATION Spec
INVARIANT Complete
INVARIANT Hidden
CHECK_DEADLOCK FALSE
