SPECIFICATION Spec
CONSTANTS TRIPLES = TRUE WORDLEN = 5 WIDTH = 0
INVARIANTS Refines Longest FirstRule Tiles SpanFits
