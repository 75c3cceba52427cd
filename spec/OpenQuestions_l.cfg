CONSTANTS
 Docs <- LL
 Lists <- Lists4
 Hows <- Hows5
PROPERTIES OnlyNamed HeldUntilDecided
