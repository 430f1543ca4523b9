SPECIFICATION Spec
INVARIANT Answers
INVARIANT Caches
INVARIANT Emitted
CHECK_DEADLOCK FALSE
