SPECIFICATION Spec
INVARIANT Invertible
INVARIANT Values
INVARIANT Double
INVARIANT Extend
INVARIANT Multiply
CHECK_DEADLOCK FALSE
