SPECIFICATION Spec
INVARIANT Progress
INVARIANT Nesting
CHECK_DEADLOCK FALSE
