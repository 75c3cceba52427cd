CONSTANTS
 Clients = {1, 2, 3}
 Kinds <- KindsAll
 MaxLines = 3
 MaxOpen = 3
 MaxOrphans = 3
INVARIANTS TypeOK UniqueIds
PROPERTIES OneTerminal Accounted OthersUntouched
