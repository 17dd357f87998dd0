SPECIFICATION Spec
CONSTANT N = 3
INVARIANTS Strict Opposite NotBoth NotEach Transitive BetweenRight Touching
CHECK_DEADLOCK FALSE
