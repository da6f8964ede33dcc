SPECIFICATION Spec
INVARIANTS Printed Composed
PROPERTY Grows
CHECK_DEADLOCK FALSE
