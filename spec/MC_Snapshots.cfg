SPECIFICATION Spec
INVARIANT Inv
PROPERTY Stable
CHECK_DEADLOCK FALSE
CONSTANTS
  Names = {1, 2, 3}
  Contents = {"garbage", "A", "B"}
  MaxOpened = 4
