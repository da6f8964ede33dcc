SPECIFICATION Spec
INVARIANT Printed Whole Once
PROPERTY Local
CHECK_DEADLOCK FALSE
