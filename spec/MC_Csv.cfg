SPECIFICATION Spec
CONSTANTS Alphabet = {34, 44, 10, 97}
          MaxLen = 1
          MaxCols = 2
INVARIANTS RoundTrip
CHECK_DEADLOCK FALSE
