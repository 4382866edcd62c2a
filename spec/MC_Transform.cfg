SPECIFICATION TransformSpec
INVARIANT TransformTheorems
CHECK_DEADLOCK FALSE
