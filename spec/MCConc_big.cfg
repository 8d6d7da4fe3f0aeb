SPECIFICATION Spec
INVARIANTS SameAsAlone Untouched
PROPERTY AllDone
CONSTANTS
  Users = {u1, u2, u3}
  Rules = 3
  MaxCalls = 2
  Mistake = "none"
