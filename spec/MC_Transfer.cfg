SPECIFICATION Spec
CONSTANTS
  Bytes = {1, 2}
  Max = 4
  Errors = {"e1", "e2"}
INVARIANT Inv
PROPERTIES NoTransferAfterFailure FailureEnds
CHECK_DEADLOCK FALSE
