SPECIFICATION Spec
CONSTANTS MaxRules = 3
          MaxText = 3
          Prefixes = TRUE
INVARIANTS Agree Furthest
CHECK_DEADLOCK FALSE
