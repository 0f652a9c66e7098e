SPECIFICATION Spec
INVARIANTS Refines NoConflict
PROPERTY Ends
CONSTANTS
  Ms = {1, 2, 3, 5, 7}
  Ks = {1, 2, 3}
  Ns = {1, 2, 4, 5}
  MC = 3
  KC = 2
  NC = 3
  MR = 2
  NR = 2
  L3 = 2
  L2 = 2
  Bug = "none"
