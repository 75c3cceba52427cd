CONSTANTS
 Stories <- OneStory
 Tasks <- TwoTasks
 Fails <- SomeFails
 Confs <- AllConfs
 Acts <- RedoActs
 Marks = {}
INVARIANTS OneEach OneEpic Refs Recorded Under
PROPERTIES Stands Grows
