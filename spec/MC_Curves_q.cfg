SPECIFICATION Spec
INVARIANT Inv1
CHECK_DEADLOCK FALSE
CONSTANTS Unit = 16
 Gammas = {8, 16, 35, 48}
 Coeffs <- Coeffs1
 Inputs <- Inputs1
