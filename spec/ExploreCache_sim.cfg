CONSTANTS
 Repos = {"ra", "rb", "rc"}
 Gens = {1, 2, 3}
 Qs = {"q1", "q2", "q3", "q4", "q5", "q6"}
 Vals = {"v1", "v2", "v3"}
INVARIANTS OnlyKnown
PROPERTIES OnlyThat
