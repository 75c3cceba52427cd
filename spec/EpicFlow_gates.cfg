CONSTANTS
 Stories <- One
 MaxHld = 1
 MaxAm = 0
 MaxExtra = 0
 Acts <- GateActs
 StartReady = FALSE
INVARIANTS NoUnapproved OrderIsApproval StoriesUnique ChainSound
PROPERTIES RejectRevokes DecidedOnce OrderGrows
