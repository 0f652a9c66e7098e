SPECIFICATION Spec
INVARIANTS Refines NoConflict
PROPERTY Ends
CONSTANTS
  Ms = {1, 2, 3, 4, 5, 6, 7, 8, 9}
  Ks = {1, 2, 3, 4, 5, 6}
  Ns = {1, 2, 3, 4, 5, 6, 7, 8, 9}
  MC = 3
  KC = 2
  NC = 4
  MR = 2
  NR = 2
  L3 = 1
  L2 = 1
  Bug = "none"
