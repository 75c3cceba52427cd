CONSTANTS
 Fills <- F3
 Ages = {1, 14, 60, 100}
 Ds = {TRUE, FALSE}
 Assts = {"short"}
 VecsC <- TwoV
 MaxTs = {500}
 MaxDs = {50}
 Scopes = {"ra"}
 Acts = {"Fill", "Compact"}
 MaxTick = 0
PROPERTIES DirectivesStay RecentStay Said CrashKeeps Elsewhere
