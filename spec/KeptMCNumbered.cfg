SPECIFICATION Spec
CONSTANTS Again = TRUE
          Within = TRUE
          Keys = {1, 2}
          Each = 1
INVARIANT Right
CHECK_DEADLOCK FALSE
