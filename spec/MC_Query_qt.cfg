SPECIFICATION Spec
CONSTANTS MaxGoals = 3
          Level = "flat"
INVARIANTS AsReading Distinct
CHECK_DEADLOCK FALSE
