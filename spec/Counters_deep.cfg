SPECIFICATION Spec
CONSTANTS THREADS = 4 CALLS = 4 ATOMIC = TRUE
INVARIANTS NeverLost Bounded
PROPERTY Grows
