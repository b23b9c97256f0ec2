SPECIFICATION Spec
CONSTANTS Guarded = TRUE
          Spurious = FALSE
          Large = TRUE
INVARIANT Right
CHECK_DEADLOCK FALSE
