SPECIFICATION Spec
INVARIANTS Explained PlaceIn ExcludedIn UndefinedIn LocalCauses EndOnly LeafAtStart GroupSame ChoiceOf FirstOf
CONSTANTS
  MaxLen = 2
  Part = "deep"
  Big = FALSE
