SPECIFICATION Spec
INVARIANTS InText Accounted Whole Nothing Empty Partition Separate Undefined Reversed
PROPERTIES Ends GetsOn
CONSTANTS
  MaxLen = 4
  Big = TRUE
