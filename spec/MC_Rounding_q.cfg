SPECIFICATION Spec
INVARIANT Inv
CHECK_DEADLOCK FALSE
CONSTANTS Highs = {0, 1, 256, 32767, 32768, 40000, 65535}
 Lows = {0, 1, 2, 255, 32767, 32768, 65535}
 Fractions = {0, 1, 128, 32766, 32767, 32768, 32769, 65535}
