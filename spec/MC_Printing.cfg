SPECIFICATION Spec
INVARIANT Inv
CHECK_DEADLOCK FALSE
CONSTANT Alphabet = {0, 1, 15, 16, 32, 34, 49, 92, 97, 127, 128, 191, 194, 233, 255}
