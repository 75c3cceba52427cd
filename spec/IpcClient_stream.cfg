CONSTANTS
 MaxCalls = 1
 Styles = {"stream"}
 MaxLines = 2
 MaxFwd = 1
 StreamLines <- StreamAll
 UnaryLines <- UnaryAll
INVARIANTS NeverStuck
PROPERTIES SettleOnce InOrder Separate
