SPECIFICATION Spec
INVARIANT Theorems
CHECK_DEADLOCK FALSE
