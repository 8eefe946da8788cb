CONSTANTS Gammas = {0, 256, 512, 1000, 1024, 2048, 2458}
 Slopes <- SlopesDef
 Shifts <- ShiftsDef
 Cuts <- CutsDef
