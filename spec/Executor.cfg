CONSTANTS
 N = 3
 Plans = {"plain", "norunner", "badref", "nofinalize"}
 MaxHeld = 2
 MaxTick = 3
INVARIANTS HeldWellFormed
PROPERTIES ResumeOrder StartOrder Immutable CompleteIffAll
