SPECIFICATION Spec
INVARIANTS Within Local Faithful Shape Marks Grouped Optional Choice Repeated Hints Skipping
CONSTANTS
  MaxLen = 2
  Part = "blocks"
  Big = FALSE
