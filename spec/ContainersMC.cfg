SPECIFICATION Spec
CONSTANTS Top = 5
          Page = 2
          Place = 2
          Longest = 4
INVARIANT Right
CHECK_DEADLOCK FALSE
