SPECIFICATION Spec
CONSTANTS
  DEPTH = 2
  WORDLEN = 3
  HEADS = {"opt", "vec", "neseq", "opttokprefix", "tokprefix", "optsepseq"}
INVARIANTS Sound Complete Located Predicts
