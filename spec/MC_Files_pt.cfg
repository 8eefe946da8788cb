SPECIFICATION Spec
CONSTANTS
  Names = {1, 2, 3, 4}
  Regular = {1, 2, 3}
  Ids = {1, 2}
  Contents <- MCContents
  Nothing <- MCNothing
  Opens <- MCOpens
  Perms <- MCPerms
  MaxHeld = 1
INVARIANTS Coherent WrittenIsEmpty OkMeansFile AnyName Rights Owned Bounded
PROPERTIES ReadsChangeNothing WritesTouchOneFile LinksStay RefusedMeansUntouched
CHECK_DEADLOCK FALSE
