CONSTANTS
 Stories <- One
 MaxHld = 2
 MaxAm = 1
 MaxExtra = 0
 Acts <- BuildActs
 StartReady = TRUE
INVARIANTS NoUnapproved OrderIsApproval StoriesUnique ChainSound
PROPERTIES RejectRevokes DecidedOnce OrderGrows
