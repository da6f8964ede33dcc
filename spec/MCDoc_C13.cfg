SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS TextLaw SizeLaw
PROPERTIES Final
