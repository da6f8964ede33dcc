SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Rest MaskLawOnce
PROPERTIES Stable
