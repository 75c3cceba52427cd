CONSTANTS
 Tasks = {"t1", "t2"}
 Batches <- B1
 Points = 2
