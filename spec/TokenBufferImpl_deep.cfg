SPECIFICATION Spec
VIEW View
CONSTANTS
  MAXLEN = 5
  MAXOPS = 5
  Kinds = {"buf", "own"}
  SAMPLE = 0
  Variant = "fixed"
INVARIANT Refines
INVARIANT Coupled
