SPECIFICATION Spec
VIEW View
CONSTANTS
  MAXLEN = 4
  MAXOPS = 4
  Kinds = {"buf", "own"}
  SAMPLE = 0
  Variant = "fixed"
INVARIANT Refines
INVARIANT Coupled
