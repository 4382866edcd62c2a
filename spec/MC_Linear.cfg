SPECIFICATION LinearSpec
INVARIANT LinearTheorems
CHECK_DEADLOCK FALSE
