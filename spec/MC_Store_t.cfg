SPECIFICATION Spec
CONSTANTS MaxLen = 5
INVARIANTS Answers Facts_
CHECK_DEADLOCK FALSE
