SPECIFICATION Spec
INVARIANT Frames
INVARIANT Params
INVARIANT Shares
CHECK_DEADLOCK FALSE
