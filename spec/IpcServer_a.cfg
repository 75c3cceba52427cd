CONSTANTS
 Clients = {1}
 Kinds <- Kinds_a
 MaxLines = 1
 MaxOpen = 1
 MaxOrphans = 1
INVARIANTS TypeOK UniqueIds
PROPERTIES OneTerminal Accounted OthersUntouched
