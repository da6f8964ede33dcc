SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS CloseLaw Shape PenLaw NormalLaw
PROPERTIES Stable
