SPECIFICATION Spec
INVARIANTS Texts Prints
CONSTANTS
  Len1 = 5
  Alph = {123, 125, 91, 93, 44, 58, 34, 97, 49, 10, 47, 92}
  As = {0, 255}
  Ds = {0, 2}
