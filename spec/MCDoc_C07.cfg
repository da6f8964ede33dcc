SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Rest TransformLaw
PROPERTIES Stable
