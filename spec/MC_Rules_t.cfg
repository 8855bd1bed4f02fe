SPECIFICATION Spec
CONSTANTS MaxRules = 3
          Some = TRUE
INVARIANTS Consequences
CHECK_DEADLOCK FALSE
