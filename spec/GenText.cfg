SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT Agree
INVARIANT Again
