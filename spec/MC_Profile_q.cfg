SPECIFICATION MCSpec
CONSTANTS
  Base = 3
  MaxTags = 2
  Images = {}
  SigSet = {"A", "B"}
  OffSet = {0, 4, 8}
  SizeSet = {0, 4, 5}
  HSizeSet = {4, 8}
  LenSet = {5}
INVARIANT Inv
PROPERTIES AlwaysDecides SearchEnds
CHECK_DEADLOCK FALSE
