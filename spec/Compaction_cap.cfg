CONSTANTS
 Fills <- F3
 Ages = {1, 14, 60, 100}
 Ds = {TRUE, FALSE}
 Assts = {"short", "long"}
 VecsC <- NoneV
 MaxTs = {1, 2}
 MaxDs = {1, 2}
 Scopes = {"ra"}
 Acts = {"Fill", "Compact", "Dry"}
 MaxTick = 0
PROPERTIES DirectivesStay RecentStay Said CrashKeeps Elsewhere
