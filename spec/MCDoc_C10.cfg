SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Rest GradLaw
PROPERTIES Stable
