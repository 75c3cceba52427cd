CONSTANTS
 Stories <- One
 MaxHld = 1
 MaxAm = 0
 MaxExtra = 1
 Acts <- DocActs
 StartReady = FALSE
INVARIANTS NoUnapproved OrderIsApproval StoriesUnique ChainSound
PROPERTIES RejectRevokes DecidedOnce OrderGrows
