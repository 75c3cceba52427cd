CONSTANTS
 Writes = {"oer", "oep", "oec", "oe", "ob", "b", "bt"}
 Cuts = {"b", "oe"}
 Vals = {"s1", "s2", "obj"}
 Roots = {"n1"}
INVARIANTS WellFormed Idempotent
PROPERTIES Preserving Reported
