CONSTANTS
 Docs <- All
 Lists <- Lists4
 Hows <- Hows5
 Points = 4
