SPECIFICATION Spec
VIEW View
INVARIANTS Delivered Cursor Places
CONSTANTS
  Alphabet = {97, 10, 32}
  MaxLen = 3
  MaxLayers = 2
  Emit = TRUE
