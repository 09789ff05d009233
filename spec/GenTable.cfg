SPECIFICATION Spec
VIEW View
CHECK_DEADLOCK FALSE
INVARIANT Last1
PROPERTY Conserved
