SPECIFICATION Spec
INVARIANT Inv
CHECK_DEADLOCK FALSE
CONSTANTS Highs = {0, 1, 2, 3, 5, 255, 256, 16383, 16384, 32767, 32768, 32769, 40000, 65534, 65535}
 Lows = {0, 1, 2, 3, 4, 7, 8, 100, 255, 256, 4095, 32767, 32768, 32769, 65534, 65535}
 Fractions = {0, 1, 2, 3, 128, 4096, 16384, 32766, 32767, 32768, 32769, 49152, 65534, 65535}
