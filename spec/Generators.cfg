SPECIFICATION Spec
CONSTANTS
  Kinds = {"normal", "gamma"}
  Rows = {1, 2}
  MaxObjs = 3
  DrawSizes = {1, 2, 5}
  MaxDrawn = 6
INVARIANT SizeHonoured
PROPERTIES FreshDraws ObjectsImmutable
CHECK_DEADLOCK FALSE
