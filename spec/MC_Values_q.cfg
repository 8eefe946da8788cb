SPECIFICATION Spec
INVARIANT Inv
CHECK_DEADLOCK FALSE
CONSTANT Alphabet = {0, 65, 127, 128, 143, 144, 160, 191, 193, 194, 224, 237, 240, 244, 255}
