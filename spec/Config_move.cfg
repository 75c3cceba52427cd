CONSTANTS
 Writes = {"ol", "olr", "lr", "lu", "l"}
 Cuts = {"l", "ol", "o", "lr"}
 Vals = {"s1", "n1", "obj", "nul"}
 Roots = {"arr"}
INVARIANTS WellFormed Idempotent
PROPERTIES Preserving Reported
