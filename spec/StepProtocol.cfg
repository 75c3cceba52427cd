CONSTANTS
 MaxRuns = 2
 MaxToks = 4
PROPERTIES OnlyOwnPhase RefusalIsNoop ArtifactOnlyBySynth OthersUntouched
