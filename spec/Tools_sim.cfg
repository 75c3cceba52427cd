CONSTANTS
 Ids = {"a", "b", "c"}
 Names = {"a", "b", "c", "x", "y", "z"}
 AliasSets <- MoreAliases
 Vers = {1, 2}
 Calls = {"c1", "c2", "c3", "c4"}
 Hows = {"ok", "report", "throw", "odd", "later"}
 Gates = {"no", "yes", "fn", "throws"}
 Acts = {"Register", "Alias", "Exec"}
INVARIANTS Lookup Aliases
PROPERTIES Stable
