SPECIFICATION Spec
CONSTANTS MaxGoals = 2
          Level = "flat"
INVARIANTS AsReading Distinct
CHECK_DEADLOCK FALSE
