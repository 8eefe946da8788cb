SPECIFICATION Spec
CONSTANTS
  Base = 4
  Width = 2
  SmallMax = 15
  FileMax <- MCFileMax
  MaxLen = 3
  Bytes = {1, 2}
  Lens = {0, 1, 2}
  Modes = {"rw", "r", "w", "a", "ra"}
  MaxHandles = 2
INVARIANT Inv
PROPERTIES OwnPositions OnlyWritesWrite AppendsKeep Permissions
VIEW View
CHECK_DEADLOCK FALSE
