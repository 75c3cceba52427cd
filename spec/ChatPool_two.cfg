CONSTANTS
 Ids <- TwoIds
 Repos = {"a", "b"}
 Acts = {"Create", "Status", "Pair", "Purge", "Tick", "Restart"}
INVARIANTS NoTwice OwnRepo
PROPERTIES Leaves ClosedLeft
