CONSTANT Entries3 = 3000
