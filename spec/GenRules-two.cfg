SPECIFICATION GSpec
INVARIANT Readable
CONSTANTS
  MaxLen = 0
  Part = "two"
  Big = TRUE
