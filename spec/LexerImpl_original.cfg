SPECIFICATION Spec
CONSTANTS TRIPLES = FALSE WORDLEN = 3 WIDTH = 1
INVARIANTS Refines Longest FirstRule Tiles SpanFits
