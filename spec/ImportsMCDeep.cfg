SPECIFICATION Spec
CONSTANTS
    Factors = {1, 2, 3, 5}
    Numbers = {1, 2, 3, 4}
INVARIANTS Exact RefusedRightly
CHECK_DEADLOCK FALSE
