SPECIFICATION Spec
VIEW View
INVARIANTS Unique Lines Known IsThose SameText AnyOrder Valid
PROPERTIES Failed
CONSTANTS
  MaxOps = 5
  Big = FALSE
  Emit = TRUE
