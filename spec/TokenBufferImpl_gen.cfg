SPECIFICATION Spec
CONSTANTS
  MAXLEN = 8
  MAXOPS = 11
  Kinds = {"buf", "own"}
  SAMPLE = 12
  Variant = "fixed"
INVARIANT Emit
