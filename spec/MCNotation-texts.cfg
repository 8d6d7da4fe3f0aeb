SPECIFICATION Spec
INVARIANTS Read Reread Around InBrackets RefsRead
CONSTANTS
  What = "texts"
  Big = FALSE
  MaxPieces = 3
