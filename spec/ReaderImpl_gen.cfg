SPECIFICATION Spec
CONSTANTS
  BUF = 8
  MAXLEN = 9
  MAXOPS = 12
  Items = {97, 10, 195, 169, 226, 255, 256, 257, 130, 172, 120}
  Kinds = {"char", "byte"}
  Stops = {{97}, {233}}
  SAMPLE = 40
  Variant = "fixed"
INVARIANT Emit
