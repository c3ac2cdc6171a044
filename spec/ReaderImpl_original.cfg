SPECIFICATION Spec
VIEW View
CONSTANTS
  BUF = 4
  MAXLEN = 3
  MAXOPS = 4
  Items = {97, 10, 195, 169, 226, 255, 256, 257}
  Kinds = {"char", "byte"}
  Stops = {{97}, {233}}
  SAMPLE = 0
  Variant = "original"
INVARIANT Refines
INVARIANT Coupled
