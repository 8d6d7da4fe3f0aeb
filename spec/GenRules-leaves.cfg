SPECIFICATION GSpec
INVARIANT Readable
CONSTANTS
  MaxLen = 0
  Part = "leaves"
  Big = TRUE
