SPECIFICATION Spec

VIEW View
INVARIANTS Valid Cut Algebra
CHECK_DEADLOCK FALSE
