SPECIFICATION Spec
CONSTANTS MaxLen = 2  Texts = "joined"
INVARIANTS Answers Knows Bounded Answerable Readable
PROPERTIES NotUnderstood_
CHECK_DEADLOCK FALSE
