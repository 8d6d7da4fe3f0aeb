SPECIFICATION Spec
INVARIANTS Explained PlaceIn ExcludedIn UndefinedIn LocalCauses EndOnly LeafAtStart GroupSame ChoiceOf FirstOf
CONSTANTS
  MaxLen = 3
  Part = "leaves"
  Big = FALSE
