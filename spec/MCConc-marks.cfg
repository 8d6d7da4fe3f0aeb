SPECIFICATION Spec
INVARIANTS SameAsAlone

CONSTANTS
  Users = {u1, u2}
  Rules = 3
  MaxCalls = 1
  Mistake = "marks"
