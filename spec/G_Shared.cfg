CONSTANT Kinds = {"good", "bad", "date", "many", "missing", "short", "tags"}
