SPECIFICATION Spec
CONSTANTS
  Base = 4
  Width = 2
  SmallMax = 15
  FileMax <- MCFileMax
  Kinds = {"vec", "file", "null"}
  MaxLen = 4
  Bytes = {1, 2}
  Lens = {0, 1, 2}
INVARIANT Inv
PROPERTIES ReadsAreHarmless FailedSeeksStay FixedStaysFixed NothingLost GapsAreZero NullIsZero
VIEW View
CHECK_DEADLOCK FALSE
CONSTRAINT Clean
