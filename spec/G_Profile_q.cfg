CONSTANT Entries3 = 100
