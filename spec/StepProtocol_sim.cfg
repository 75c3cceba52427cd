CONSTANTS
 MaxRuns = 4
 MaxToks = 14
PROPERTIES OnlyOwnPhase RefusalIsNoop ArtifactOnlyBySynth OthersUntouched
