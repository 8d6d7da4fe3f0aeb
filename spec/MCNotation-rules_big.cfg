SPECIFICATION Spec
INVARIANTS Read Reread Around InBrackets RefsRead
CONSTANTS
  What = "rules"
  Big = TRUE
  MaxPieces = 5
