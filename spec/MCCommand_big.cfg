SPECIFICATION Spec
INVARIANTS InOrder Stages NoRules Given Order Alone Trees
PROPERTY Ends
CONSTANTS
  MaxArgs = 4
  Emit = TRUE
