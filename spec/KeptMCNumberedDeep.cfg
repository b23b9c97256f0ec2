SPECIFICATION Spec
CONSTANTS Again = TRUE
          Within = TRUE
          Keys = {1, 2}
          Each = 2
INVARIANT Right
CHECK_DEADLOCK FALSE
