SPECIFICATION Spec
INVARIANTS Algebra Shuffles Adjoints Series GroupLike Lie Cbh
CHECK_DEADLOCK FALSE
