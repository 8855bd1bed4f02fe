SPECIFICATION Spec
CONSTANTS MaxLen = 6
INVARIANTS OnlySince
           Consumed
           OthersKept
CHECK_DEADLOCK FALSE
