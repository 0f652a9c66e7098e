SPECIFICATION Spec
INVARIANTS Exactly AtMost Clean
PROPERTY Returns
CONSTANTS
  Callers = {c1, c2}
  Level = 2
  Rounds = 2
  Programs <- AllPrograms
  Wrong = FALSE
