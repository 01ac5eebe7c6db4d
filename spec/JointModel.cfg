SPECIFICATION Spec
INVARIANT Derived
INVARIANT Agreement
INVARIANT Hinted
INVARIANT Completes
CHECK_DEADLOCK FALSE
