SPECIFICATION Spec
INVARIANT Canonical
INVARIANT Emitted
PROPERTY Frame
CHECK_DEADLOCK FALSE
