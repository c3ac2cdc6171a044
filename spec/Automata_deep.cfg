SPECIFICATION Spec
VIEW View
CONSTANTS
  Syms = {97, 98}
  SIZE1 = 3
  SIZE2 = 2
  SAMPLE = 200
  Variant = "fixed"
INVARIANT SameTag
INVARIANT SameLife
