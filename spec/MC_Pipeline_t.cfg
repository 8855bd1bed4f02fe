SPECIFICATION Spec
CONSTANTS MaxLen = 4
          MaxProds = 2
          MaxCalls = 15
          Emit = FALSE
INVARIANTS Agrees Consistent NoneAfterSuccess
CHECK_DEADLOCK FALSE
