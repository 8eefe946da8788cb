SPECIFICATION Spec
INVARIANT Inv
CHECK_DEADLOCK FALSE
CONSTANT Alphabet = {0, 1, 16, 32, 34, 92, 97, 128, 194, 255}
