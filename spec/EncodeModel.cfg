SPECIFICATION Spec
INVARIANT Recovers
INVARIANT Within
INVARIANT Types
INVARIANT Weights
CHECK_DEADLOCK FALSE
