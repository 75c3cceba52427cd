CONSTANTS
 Fills <- F3a
 Ages = {14, 60, 100}
 Ds = {TRUE, FALSE}
 Assts = {"short"}
 VecsC <- OneV
 MaxTs = {500}
 MaxDs = {50}
 Scopes = {"all"}
 Acts = {"Fill", "Crash"}
 MaxTick = 0
PROPERTIES DirectivesStay RecentStay Said CrashKeeps Elsewhere
