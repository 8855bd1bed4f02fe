SPECIFICATION Spec
CONSTANTS MaxRules = 4
          Reverse = FALSE
INVARIANTS Agree Ends
CHECK_DEADLOCK FALSE
