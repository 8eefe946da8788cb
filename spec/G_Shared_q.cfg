CONSTANT Kinds = {"good", "bad", "many", "missing"}
