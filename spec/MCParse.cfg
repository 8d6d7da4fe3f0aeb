SPECIFICATION Spec
INVARIANTS InText Accounted Whole Nothing Empty Partition Separate Undefined Reversed
PROPERTIES Ends GetsOn
CONSTANTS
  MaxLen = 3
  Big = FALSE
