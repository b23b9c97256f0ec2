SPECIFICATION Spec
CONSTANTS Guarded = FALSE
          Spurious = FALSE
          Large = FALSE
INVARIANT Right
CHECK_DEADLOCK FALSE
