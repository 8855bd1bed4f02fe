SPECIFICATION Spec
CONSTANTS MaxProds = 2
          MaxCalls = 9
INVARIANTS OwnProcessor FirstLanguage MissingIsError
CHECK_DEADLOCK FALSE
