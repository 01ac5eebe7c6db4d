SPECIFICATION Spec
INVARIANTS Sound Recovers Linear Hidden
CHECK_DEADLOCK FALSE
