SPECIFICATION Spec
INVARIANTS Isolated Printed
PROPERTIES Stable Alone
CHECK_DEADLOCK FALSE
