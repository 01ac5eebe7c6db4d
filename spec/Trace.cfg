SPECIFICATION Spec
INVARIANT Conforms
POSTCONDITION AllConsumed
CHECK_DEADLOCK FALSE
