SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT Partition
INVARIANT Stripped
INVARIANT Same
