SPECIFICATION Spec
INVARIANTS Agreed Real Weekdays Lengths Seconds Cycle Mirror Connected
CHECK_DEADLOCK FALSE
