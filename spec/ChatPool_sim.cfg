CONSTANTS
 Ids <- FourIds
 Repos = {"a", "b"}
 Acts = {"Create", "Status", "Purge", "Tick", "Restart"}
INVARIANTS NoTwice OwnRepo
PROPERTIES Leaves ClosedLeft
