SPECIFICATION Spec
CONSTANTS MaxLen = 3
          MaxProds = 2
          MaxCalls = 7
          Emit = TRUE
INVARIANTS Agrees Consistent NoneAfterSuccess
CHECK_DEADLOCK FALSE
