CONSTANT Depth = 3
