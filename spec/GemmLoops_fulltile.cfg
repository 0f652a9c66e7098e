SPECIFICATION Spec
INVARIANTS Refines NoConflict

CONSTANTS
  Ms = {5, 7}
  Ks = {3}
  Ns = {5}
  MC = 3
  KC = 2
  NC = 3
  MR = 2
  NR = 2
  L3 = 2
  L2 = 2
  Bug = "fulltile"
