SPECIFICATION Spec
INVARIANTS Deeper Nested Distinct
CONSTRAINT Emit
CHECK_DEADLOCK FALSE
