SPECIFICATION Spec
CONSTANTS THREADS = 3 CALLS = 3 ATOMIC = TRUE
INVARIANTS NeverLost Bounded
PROPERTY Grows
