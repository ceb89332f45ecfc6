SPECIFICATION Spec
INVARIANTS Texts Prints
CONSTANTS
  Len1 = 4
  Alph = {123, 125, 91, 93, 44, 58, 34, 97, 49, 10, 45, 48}
  As = {255}
  Ds = {2}
