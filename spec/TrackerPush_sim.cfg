CONSTANTS
 Stories <- TwoStories
 Tasks <- ThreeTasks
 Fails <- AllFails
 Confs <- AllConfs
 Acts <- AllActs
 Marks = {"open", "closed", "blocked", "in-progress"}
INVARIANTS OneEach OneEpic Refs Recorded Under
PROPERTIES Stands Grows
