SPECIFICATION Spec
CONSTANTS Top = 6
          Page = 3
          Place = 2
          Longest = 5
INVARIANT Right
CHECK_DEADLOCK FALSE
