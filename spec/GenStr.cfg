SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT QuoteInv
INVARIANT SplitInv
INVARIANT FindInv
INVARIANT CmpInv
