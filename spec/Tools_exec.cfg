CONSTANTS
 Ids = {"a", "b"}
 Names = {"a", "b", "x"}
 AliasSets <- NoAliases
 Vers = {1, 2}
 Calls = {"c1", "c2"}
 Hows = {"ok", "report", "throw", "odd", "later"}
 Gates = {"no", "yes", "fn", "throws"}
 Acts = {"Register", "Alias", "Exec"}
INVARIANTS Lookup Aliases
PROPERTIES Stable
