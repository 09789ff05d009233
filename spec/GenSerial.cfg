SPECIFICATION Spec
VIEW View
CHECK_DEADLOCK FALSE
INVARIANT Passes
INVARIANT NotRefused
INVARIANT Prompt
