SPECIFICATION Spec
CONSTANTS MaxLen = 4
INVARIANTS Answers Facts_
CHECK_DEADLOCK FALSE
