SPECIFICATION Spec
INVARIANTS Read Reread Around InBrackets RefsRead
CONSTANTS
  What = "texts"
  Big = TRUE
  MaxPieces = 5
