SPECIFICATION Spec
INVARIANTS Flags Injective Printed
CHECK_DEADLOCK FALSE
