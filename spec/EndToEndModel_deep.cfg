SPECIFICATION Spec
CONSTANTS TEXTLEN = 5 HISTORY = 4
INVARIANTS Tiles Faithful Memoryless Placed Delivered Counted
