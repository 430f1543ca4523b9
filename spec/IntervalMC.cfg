SPECIFICATION Spec
INVARIANTS Dissections Cells Pairs Segmentation Emitted
CHECK_DEADLOCK FALSE
