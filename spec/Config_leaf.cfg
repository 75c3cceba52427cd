CONSTANTS
 Writes = {"of", "f", "gs", "g", "q"}
 Cuts = {"f", "g"}
 Vals = {"s1", "b1", "obj"}
 Roots = {"nul"}
INVARIANTS WellFormed Idempotent
PROPERTIES Preserving Reported
