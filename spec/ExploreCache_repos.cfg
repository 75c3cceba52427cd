CONSTANTS
 Repos = {"ra", "rb"}
 Gens = {1}
 Qs = {"q1", "q2"}
 Vals = {"v1"}
INVARIANTS OnlyKnown
PROPERTIES OnlyThat
