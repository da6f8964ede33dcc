SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Rest UseLaw
PROPERTIES Stable
