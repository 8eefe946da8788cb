CONSTANTS MaxCalls = 2 Whats = {"good", "sig", "count", "eof"} Vias = {"given", "other", "default", "copy", "fresh"}
