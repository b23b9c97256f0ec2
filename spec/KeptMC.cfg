SPECIFICATION Spec
CONSTANTS Again = TRUE
          Within = FALSE
          Keys = {1, 2}
          Each = 1
INVARIANT Right
CHECK_DEADLOCK FALSE
