SPECIFICATION Spec
CHECK_DEADLOCK FALSE
VIEW View
INVARIANT StmtInv
INVARIANT TreeInv
INVARIANT FnInv
INVARIANT ListInv
PROPERTY Frame
