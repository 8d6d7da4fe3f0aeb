SPECIFICATION Spec
INVARIANTS Reported InPlace Whole
CONSTANTS
  Len0 = 5
  Depth = 3
  MaxCalls = 2
  Mistake = "none"
