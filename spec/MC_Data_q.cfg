SPECIFICATION Spec
CONSTANTS MaxLen = 2
INVARIANTS Relational Reversed Others Narrower
CHECK_DEADLOCK FALSE
