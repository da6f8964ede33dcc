SPECIFICATION Spec
INVARIANTS Assoc Neutral Composes Vectors Inverses
CHECK_DEADLOCK FALSE
