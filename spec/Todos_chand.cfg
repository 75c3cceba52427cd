CONSTANTS
 ListIds = {"l1"}
 ItemIds = {}
 ComIds = {}
 Sessions = {"s1"}
 Owners = {"u", "p"}
 Ords = {1}
 Kinds = {"transfer", "listTitle", "listStatus", "delList"}
 ItemSt = {}
 Reasons = {}
 MaxTr = 2
 Conc = TRUE
 Start = "lists"
INVARIANTS Forest SameSession Owned Chained NoOrphans DoneMatches BlockedHasReason
PROPERTIES TransfersGrow TerminalStays
