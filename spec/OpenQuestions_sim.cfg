CONSTANTS
 Docs <- All
 Lists <- Lists4
 Hows <- Hows5
PROPERTIES OnlyNamed HeldUntilDecided
