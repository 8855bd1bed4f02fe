SPECIFICATION Spec
CONSTANTS MaxRules = 2
          Some = TRUE
INVARIANTS Consequences
CHECK_DEADLOCK FALSE
