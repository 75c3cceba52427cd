CONSTANTS
 Stories <- Two
 MaxHld = 6
 MaxAm = 6
 MaxExtra = 3
 Acts <- AllActs
 StartReady = FALSE
 Points = 4
