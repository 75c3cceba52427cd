CONSTANTS
 Slots = 2
 Cap = 1
 MaxAtt = 4
 Cursors <- SmallCursors
INVARIANTS RunningNeverDropped OutcomeMatches
PROPERTIES TerminalSticks FramesAppendOnly Independent
