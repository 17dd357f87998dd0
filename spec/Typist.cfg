SPECIFICATION Spec
INVARIANTS Design Emitted
CHECK_DEADLOCK FALSE
