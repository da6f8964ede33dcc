SPECIFICATION Spec
INVARIANTS Printed Laws
CHECK_DEADLOCK FALSE
