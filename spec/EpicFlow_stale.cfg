CONSTANTS
 Stories <- One
 MaxHld = 2
 MaxAm = 2
 MaxExtra = 0
 Acts <- StaleActs
 StartReady = TRUE
INVARIANTS NoUnapproved OrderIsApproval StoriesUnique ChainSound
PROPERTIES RejectRevokes DecidedOnce OrderGrows
