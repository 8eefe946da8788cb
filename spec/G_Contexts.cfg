CONSTANT Depth = 4
