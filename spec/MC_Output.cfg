SPECIFICATION Spec
CONSTANTS MaxLen = 4
INVARIANTS OnlySince
           Consumed
           OthersKept
CHECK_DEADLOCK FALSE
