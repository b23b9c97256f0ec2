SPECIFICATION Spec
CONSTANTS Guarded = TRUE
          Spurious = TRUE
          Large = FALSE
INVARIANT Right
CHECK_DEADLOCK FALSE
