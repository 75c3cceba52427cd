CONSTANTS
 Stories <- Two
 MaxHld = 8
 MaxAm = 12
 MaxExtra = 2
 Acts <- AllActs
 StartReady = TRUE
INVARIANTS NoUnapproved OrderIsApproval StoriesUnique ChainSound
PROPERTIES RejectRevokes DecidedOnce OrderGrows
