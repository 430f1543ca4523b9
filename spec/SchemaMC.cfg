SPECIFICATION Spec
INVARIANT Layout
INVARIANT Emitted
PROPERTY Keeps
CHECK_DEADLOCK FALSE
