SPECIFICATION Spec
VIEW View
CONSTANTS
  MAXLEN = 3
  MAXOPS = 3
  Kinds = {"buf", "own"}
  SAMPLE = 0
  Variant = "original"
INVARIANT Refines
