CONSTANTS
 Labels <- Big
 MaxPend = 7
 Bursts = TRUE
INVARIANTS TypeOK NoDup NoSuperseded IdleMeansEmpty
