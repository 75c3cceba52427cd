CONSTANTS
 N = 4
 Plans = {"plain", "norunner"}
 MaxHeld = 6
 MaxTick = 3
INVARIANTS HeldWellFormed
