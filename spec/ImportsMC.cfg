SPECIFICATION Spec
CONSTANTS
    Factors = {1, 2, 3, 5, 6}
    Numbers = {1, 2, 3}
INVARIANTS Exact RefusedRightly
CHECK_DEADLOCK FALSE
