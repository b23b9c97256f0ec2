SPECIFICATION Spec
CONSTANTS Guarded = TRUE
          Spurious = FALSE
          Large = FALSE
INVARIANT Right
CHECK_DEADLOCK FALSE
