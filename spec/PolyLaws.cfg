SPECIFICATION Spec
INVARIANTS Ring Canon Degree Evaluation
CHECK_DEADLOCK FALSE
