SPECIFICATION Spec
INVARIANTS Read Reread Around InBrackets RefsRead
CONSTANTS
  What = "rules"
  Big = FALSE
  MaxPieces = 3
