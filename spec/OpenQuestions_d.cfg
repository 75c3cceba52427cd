CONSTANTS
 Docs <- DD
 Lists <- Lists4
 Hows <- Hows5
PROPERTIES OnlyNamed HeldUntilDecided
