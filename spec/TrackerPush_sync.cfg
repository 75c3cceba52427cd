CONSTANTS
 Stories <- OneStory
 Tasks <- TwoTasks
 Fails <- SyncFails
 Confs = {"none", "tasks"}
 Marks = {"open", "closed", "blocked"}
 Acts <- SyncActs
INVARIANTS OneEach OneEpic Refs Recorded Under
PROPERTIES Stands Grows
