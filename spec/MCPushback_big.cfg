SPECIFICATION Spec
INVARIANTS Reported InPlace Whole
CONSTANTS
  Len0 = 6
  Depth = 4
  MaxCalls = 3
  Mistake = "none"
