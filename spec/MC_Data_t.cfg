SPECIFICATION Spec
CONSTANTS MaxLen = 3
INVARIANTS Relational Reversed Others Narrower
CHECK_DEADLOCK FALSE
