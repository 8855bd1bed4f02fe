SPECIFICATION Spec
CONSTANTS MaxGoals = 3
          Level = "nested"
INVARIANTS AsReading Distinct
CHECK_DEADLOCK FALSE
