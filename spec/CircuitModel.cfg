SPECIFICATION Spec
INVARIANT Exact
INVARIANT Shape
INVARIANT Splits
CHECK_DEADLOCK FALSE
