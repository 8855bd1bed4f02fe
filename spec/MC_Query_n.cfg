SPECIFICATION Spec
CONSTANTS MaxGoals = 2
          Level = "nested"
INVARIANTS AsReading Distinct
CHECK_DEADLOCK FALSE
