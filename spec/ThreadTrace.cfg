SPECIFICATION TSpec
INVARIANT Done
CHECK_DEADLOCK FALSE
CONSTANTS
  TopV = 0
  Alphabet = {}
  MaxLen = 0
  Phys = {}
  Sizes = {}
  Ms = {}
  MC = 1
