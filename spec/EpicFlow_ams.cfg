CONSTANTS
 Stories <- One
 MaxHld = 1
 MaxAm = 3
 MaxExtra = 0
 Acts <- AmActs
 StartReady = TRUE
INVARIANTS NoUnapproved OrderIsApproval StoriesUnique ChainSound
PROPERTIES RejectRevokes DecidedOnce OrderGrows
