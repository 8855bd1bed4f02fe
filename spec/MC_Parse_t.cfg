SPECIFICATION Spec
CONSTANTS MaxRules = 3
          MaxText = 4
          Prefixes = FALSE
INVARIANTS Agree Furthest
CHECK_DEADLOCK FALSE
