SPECIFICATION Spec
CONSTANTS Alphabet = {34, 44, 10, 13, 97}
          MaxLen = 2
          MaxCols = 1
INVARIANTS RoundTrip
CHECK_DEADLOCK FALSE
