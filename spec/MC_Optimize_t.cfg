SPECIFICATION Spec
CONSTANTS MaxFlat = 3
          Small = FALSE
INVARIANTS SameAnswers SameGoals
CHECK_DEADLOCK FALSE
