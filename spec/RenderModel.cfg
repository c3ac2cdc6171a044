SPECIFICATION Spec
CONSTANTS LEN = 3 LINES = 7
INVARIANTS OneOk ManyOk
