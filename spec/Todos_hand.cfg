CONSTANTS
 ListIds = {"l1"}
 ItemIds = {}
 ComIds = {}
 Sessions = {"s1"}
 Owners = {"u", "p"}
 Ords = {1}
 Kinds = {"transfer", "listTitle"}
 ItemSt = {}
 Reasons = {}
 MaxTr = 4
 Conc = FALSE
 Start = "lists"
INVARIANTS Forest SameSession Owned Chained NoOrphans DoneMatches BlockedHasReason
PROPERTIES TransfersGrow TerminalStays
