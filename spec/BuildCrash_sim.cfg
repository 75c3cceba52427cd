CONSTANTS
 Tasks <- T3
 Batches <- B2
 Points = 4
