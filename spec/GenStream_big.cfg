SPECIFICATION Spec
VIEW View
INVARIANTS Delivered Cursor Places
CONSTANTS
  Alphabet = {97, 10, 32}
  MaxLen = 4
  MaxLayers = 3
  Emit = TRUE
