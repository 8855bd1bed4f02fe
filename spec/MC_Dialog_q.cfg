SPECIFICATION Spec
CONSTANTS MaxLen = 3  Texts = "small"
INVARIANTS Answers Knows Bounded Answerable Readable
PROPERTIES NotUnderstood_
CHECK_DEADLOCK FALSE
