SPECIFICATION Spec
INVARIANT OnlyBounds
INVARIANT UnitBox
INVARIANT Built
CHECK_DEADLOCK FALSE
