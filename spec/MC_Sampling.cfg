SPECIFICATION Spec
CONSTANTS
  MaxN = 6
  MaxR = 3
  Den = 8
  Method = "cumulated"
INVARIANTS Total Shares Grid Lat
