SPECIFICATION Spec
CONSTANTS MaxFlat = 3
          Small = TRUE
INVARIANTS SameAnswers SameGoals
CHECK_DEADLOCK FALSE
