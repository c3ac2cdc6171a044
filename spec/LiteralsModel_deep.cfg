SPECIFICATION Spec
CONSTANTS INTLEN = 5 ITEMS = 4
INVARIANTS IntsRight Wider StrRight CharRight
