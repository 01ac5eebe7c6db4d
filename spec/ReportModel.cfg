SPECIFICATION Spec
INVARIANT Complete
INVARIANT Outputs
INVARIANT Accepts
INVARIANT Rejects
INVARIANT Binding
INVARIANT Strict
CHECK_DEADLOCK FALSE
