CONSTANTS MaxCalls = 3 Whats = {"good", "sig"} Vias = {"given", "other", "default", "copy"}
