SPECIFICATION Spec
VIEW View
CONSTANTS
  Syms = {97, 98}
  SIZE1 = 2
  SIZE2 = 1
  SAMPLE = 0
  Variant = "original"
INVARIANT SameTag
INVARIANT SameLife
