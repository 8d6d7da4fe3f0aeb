SPECIFICATION GSpec
INVARIANT Readable
CONSTANTS
  MaxLen = 0
  Part = "blocks"
  Big = TRUE
