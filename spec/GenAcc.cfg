SPECIFICATION Spec
INVARIANT Lossless
VIEW View
CHECK_DEADLOCK FALSE
