SPECIFICATION GSpec
INVARIANT Readable
CONSTANTS
  MaxLen = 0
  Part = "deep"
  Big = TRUE
