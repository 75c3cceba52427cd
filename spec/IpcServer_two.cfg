CONSTANTS
 Clients = {1, 2}
 Kinds <- KindsPair
 MaxLines = 1
 MaxOpen = 1
 MaxOrphans = 1
INVARIANTS TypeOK UniqueIds
PROPERTIES OneTerminal Accounted OthersUntouched
