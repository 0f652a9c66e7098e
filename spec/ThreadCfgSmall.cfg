SPECIFICATION Design
INVARIANT Inv
PROPERTY Returns
CONSTANTS
  TopV = 99
  Alphabet = {32, 43, 45, 48, 49, 50, 51, 52, 57, 120}
  MaxLen = 2
  Phys = {0, 1, 2, 3, 4, 5, 64}
  Sizes = {0, 1, 2, 3, 4, 5, 8}
  Ms = {1, 2, 5, 6, 7, 12, 30}
  MC = 4
