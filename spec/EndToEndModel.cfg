SPECIFICATION Spec
CONSTANTS TEXTLEN = 4 HISTORY = 3
INVARIANTS Tiles Faithful Memoryless Placed Delivered Counted
