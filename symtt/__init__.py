"""symtt: symbolic execution of the real tt_sketch sources, decided by z3."""
