SPECIFICATION Spec
INVARIANTS OneReport Holder CleanEnd NeverWaits
PROPERTIES Refines Returns
CHECK_DEADLOCK FALSE
CONSTANTS Threads = {1, 2, 3}
 Contexts = {0, 1}
 MaxOpens = 1
