SPECIFICATION Spec
INVARIANTS TextKept VirtualGone NonDataGone TokensKept NamedKept Needed Again MergeAgain BlocksKept Counts TextIsLeaves Dumped Levels
CONSTANTS
  MaxPasses = 2
  Big = TRUE
