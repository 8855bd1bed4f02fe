SPECIFICATION Spec
CONSTANTS MaxNodes = 13
          Kinds = {1, 2, 3}
INVARIANTS Agree NamesDoNotMatter Filled
CHECK_DEADLOCK FALSE
