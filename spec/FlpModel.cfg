SPECIFICATION Spec
INVARIANTS Complete Sound Extract Refuses
CHECK_DEADLOCK FALSE
