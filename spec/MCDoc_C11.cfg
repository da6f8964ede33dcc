SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Rest RefsLaw
PROPERTIES Stable
