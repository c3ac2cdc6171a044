SPECIFICATION Spec
CONSTANTS LEN = 4 LINES = 12
INVARIANTS OneOk ManyOk
