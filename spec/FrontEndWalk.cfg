SPECIFICATION Spec
INVARIANTS InOrder Fails Complete Printed
PROPERTIES Ends
CHECK_DEADLOCK FALSE
