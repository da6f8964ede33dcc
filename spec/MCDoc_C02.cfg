SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Rest CascadeLaw
PROPERTIES Stable Final
