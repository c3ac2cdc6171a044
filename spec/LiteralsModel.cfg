SPECIFICATION Spec
CONSTANTS INTLEN = 4 ITEMS = 3
INVARIANTS IntsRight Wider StrRight CharRight
