SPECIFICATION Spec
INVARIANT Inv
PROPERTY Stable
CHECK_DEADLOCK FALSE
CONSTANTS
  Names = {1, 2}
  Contents = {"garbage", "A", "B"}
  MaxOpened = 3
