CONSTANTS
 Writes = {"ol", "olr", "oln", "olu", "of", "ob", "oe", "oer", "oep", "oem", "oec", "oex", "oz", "o", "l", "lr", "ln", "lu", "f", "b", "be", "bt", "bc", "bx", "g", "gs", "gu", "q", "u", "uv"}
 Cuts = {"ol", "ob", "o", "l", "lr", "ln", "f", "b", "be", "g", "gs", "u"}
 Vals = {"s1", "s2", "n1", "b1", "nul", "arr", "obj"}
 Roots = {"arr", "nul", "s1", "n1", "b1", "none"}
INVARIANTS WellFormed Idempotent
PROPERTIES Preserving Reported
