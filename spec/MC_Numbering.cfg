SPECIFICATION Spec
INVARIANT Numbered
CHECK_DEADLOCK FALSE
