SPECIFICATION Spec
VIEW view
CONSTANTS
  Kind = "dist"
  Depth = 4
  MaxR = 3
INVARIANTS Blocks IndexNamesRows RoundTrip GatherComplete ClipPrefix UndoInverts UnitImage
