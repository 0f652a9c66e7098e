SPECIFICATION Spec
INVARIANTS Exactly AtMost Clean

CONSTANTS
  Callers = {c1, c2, c3}
  Level = 2
  Rounds = 1
  Programs <- AllPrograms
  Wrong = FALSE
