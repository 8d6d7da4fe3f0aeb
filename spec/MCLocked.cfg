SPECIFICATION Spec
INVARIANTS Ordered Together OneWriter
CONSTANTS
  Text0 <- Text4
  Handed = 2
  Threads = {t1, t2}
  MaxOps = 3
  Locking = {"next", "take2", "cursor", "look", "pos"}
