CONSTANTS
 Stories <- Two
 MaxHld = 6
 MaxAm = 6
 MaxExtra = 3
 Acts <- AllActs
 StartReady = FALSE
INVARIANTS NoUnapproved OrderIsApproval StoriesUnique ChainSound
PROPERTIES RejectRevokes DecidedOnce OrderGrows
