SPECIFICATION Spec
CONSTANTS THREADS = 2 CALLS = 2 ATOMIC = FALSE
INVARIANTS NeverLost Bounded
