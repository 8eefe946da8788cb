CONSTANTS Depth = 3
 Modes = {"rw", "r", "w", "a", "ra"}
