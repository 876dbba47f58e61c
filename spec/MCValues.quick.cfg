SPECIFICATION Spec
INVARIANTS Address Float16 Nearest Float32 Halfway Texts Codec Fields Described
CONSTANT Step = 17
CHECK_DEADLOCK FALSE
