CONSTANTS Depth = 2
 Modes = {"rw", "r", "a"}
