SPECIFICATION Spec
INVARIANT Inv1
CHECK_DEADLOCK FALSE
CONSTANTS Unit = 16
 Gammas = {4, 8, 16, 35, 48, 80}
 Coeffs <- Coeffs2
 Inputs <- Inputs2
