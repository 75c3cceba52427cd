CONSTANTS
 Docs <- HH
 Lists <- Lists4
 Hows <- Hows5
PROPERTIES OnlyNamed HeldUntilDecided
