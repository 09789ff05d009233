SPECIFICATION Spec
INVARIANTS Steps Known
CHECK_DEADLOCK FALSE
