SPECIFICATION Spec
CONSTANT N = 2
INVARIANTS Strict Opposite NotBoth NotEach Transitive BetweenRight Touching
CHECK_DEADLOCK FALSE
