CONSTANTS
 Repos = {"ra"}
 Gens = {1, 2}
 Qs = {"q1", "q2", "q3"}
 Vals = {"v1", "v2"}
INVARIANTS OnlyKnown
PROPERTIES OnlyThat
