SPECIFICATION Spec
CONSTANT N = 5
INVARIANTS OK LiveIsReachable NothingLeft OneOwner
CHECK_DEADLOCK FALSE
