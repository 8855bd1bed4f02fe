SPECIFICATION Spec
CONSTANTS MaxRules = 2
          MaxText = 3
          Prefixes = TRUE
INVARIANTS Agree Furthest
CHECK_DEADLOCK FALSE
