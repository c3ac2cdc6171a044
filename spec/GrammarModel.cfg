SPECIFICATION Spec
CONSTANTS
  DEPTH = 1
  WORDLEN = 4
  HEADS = {"tok", "opt", "vec", "neseq", "tuple", "sepseq", "optsepseq", "nesepseq", "neoptsepseq", "neseplist", "neoptseplist", "optprefix", "opttokprefix", "tokprefix"}
INVARIANTS Sound Complete Located Predicts
