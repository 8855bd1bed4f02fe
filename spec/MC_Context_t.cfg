SPECIFICATION Spec
CONSTANTS MaxLen = 3
          MaxBody = 1
          Deep = FALSE
INVARIANTS SameOutcome SameActive SameMarks
CHECK_DEADLOCK FALSE
