SPECIFICATION Spec
INVARIANTS Isolated
PROPERTIES Stable Alone
VIEW View
CHECK_DEADLOCK FALSE
