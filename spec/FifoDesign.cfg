SPECIFICATION Spec
CONSTANTS
  W = 2
  Data = {0, 1}
  Gray = TRUE
  Hist = 0
INVARIANTS IsFifo Lower Fits Live
CHECK_DEADLOCK FALSE
