SPECIFICATION Spec
INVARIANTS OwnOutput EnoughRounds Completes NoHonestRejection TypeOK
CONSTRAINT Emit
CHECK_DEADLOCK FALSE
