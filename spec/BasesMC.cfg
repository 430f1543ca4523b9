SPECIFICATION Spec
INVARIANTS Bijection Degrees Words Witt HallOrder Independent
CHECK_DEADLOCK FALSE
