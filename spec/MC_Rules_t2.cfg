SPECIFICATION Spec
CONSTANTS MaxRules = 2
          Some = FALSE
INVARIANTS Consequences
CHECK_DEADLOCK FALSE
