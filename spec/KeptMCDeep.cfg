SPECIFICATION Spec
CONSTANTS Again = TRUE
          Within = FALSE
          Keys = {1}
          Each = 2
INVARIANT Right
CHECK_DEADLOCK FALSE
