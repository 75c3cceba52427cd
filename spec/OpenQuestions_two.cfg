CONSTANTS
 Docs <- DH
 Lists <- Lists2
 Hows <- Hows2
PROPERTIES OnlyNamed HeldUntilDecided
