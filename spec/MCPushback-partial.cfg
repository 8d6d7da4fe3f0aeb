SPECIFICATION Spec
INVARIANTS Reported InPlace Whole
CONSTANTS
  Len0 = 4
  Depth = 2
  MaxCalls = 2
  Mistake = "partial"
