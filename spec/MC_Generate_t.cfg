SPECIFICATION Spec
CONSTANTS MaxRules = 5
          Reverse = TRUE
INVARIANTS Agree Ends
CHECK_DEADLOCK FALSE
