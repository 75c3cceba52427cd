CONSTANTS
 Ids = {"a", "b"}
 Names = {"a", "b", "x"}
 AliasSets <- FewAliases
 Vers = {1, 2}
 Calls = {}
 Hows = {}
 Gates = {}
 Acts = {"Register", "Alias"}
INVARIANTS Lookup Aliases
PROPERTIES Stable
