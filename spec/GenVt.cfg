SPECIFICATION Spec
VIEW View
CHECK_DEADLOCK FALSE
INVARIANT Distinct
INVARIANT Found
PROPERTY Stable
