SPECIFICATION Spec
INVARIANTS SameAsAlone

CONSTANTS
  Users = {u1, u2}
  Rules = 2
  MaxCalls = 2
  Mistake = "memo"
