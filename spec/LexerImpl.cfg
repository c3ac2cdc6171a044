SPECIFICATION Spec
CONSTANTS TRIPLES = FALSE WORDLEN = 3 WIDTH = 0
INVARIANTS Refines Longest FirstRule Tiles SpanFits
