CONSTANTS
 Labels <- Small
 MaxPend = 2
 Bursts = FALSE
INVARIANTS TypeOK NoDup NoSuperseded IdleMeansEmpty
PROPERTIES FifoStep RunStable NothingLost RunningNeverAbsorbs
