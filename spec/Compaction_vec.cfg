CONSTANTS
 Fills <- F3
 Ages = {14, 60}
 Ds = {FALSE}
 Assts = {"long"}
 VecsC <- AllV
 MaxTs = {500}
 MaxDs = {50}
 Scopes = {"all"}
 Acts = {"Fill", "Compact", "Tick"}
 MaxTick = 1
PROPERTIES DirectivesStay RecentStay Said CrashKeeps Elsewhere
