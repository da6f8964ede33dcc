SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS ModeLaw
PROPERTIES Final
