CONSTANTS
 Fills <- F4
 Ages = {1, 14, 60, 100}
 Ds = {TRUE, FALSE}
 Assts = {"short", "long"}
 VecsC <- AllV
 MaxTs = {2, 4, 500}
 MaxDs = {2, 50}
 Scopes = {"ra", "rb", "all"}
 Acts = {"Save", "Compact", "Dry", "Tick"}
 MaxTick = 30
PROPERTIES DirectivesStay RecentStay Said CrashKeeps Elsewhere
