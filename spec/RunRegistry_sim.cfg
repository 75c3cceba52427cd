CONSTANTS
 Slots = 9
 Cap = 4
 MaxAtt = 4
 Cursors <- BigCursors
INVARIANTS RunningNeverDropped OutcomeMatches
