SPECIFICATION Spec

VIEW View
INVARIANTS Encodes EncodesM Algebra Nesting Matching Agree
CHECK_DEADLOCK FALSE
