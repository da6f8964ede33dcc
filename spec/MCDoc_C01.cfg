SPECIFICATION Spec
INVARIANT Rest
PROPERTY Stable
PROPERTY Final
CHECK_DEADLOCK FALSE
