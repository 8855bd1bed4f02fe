SPECIFICATION Spec
CONSTANTS MaxLen = 2
          MaxBody = 2
          Deep = TRUE
INVARIANTS SameOutcome SameActive SameMarks
CHECK_DEADLOCK FALSE
