CONSTANTS Gammas = {0, 512, 1024, 2048}
 Slopes <- SlopesQ
 Shifts <- ShiftsQ
 Cuts <- CutsQ
