SPECIFICATION Spec
INVARIANTS Pure Snaps Meant Drawn Printed
PROPERTY Frozen
CHECK_DEADLOCK FALSE
