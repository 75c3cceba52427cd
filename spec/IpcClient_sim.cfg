CONSTANTS
 MaxCalls = 4
 Styles = {"stream", "rpc", "unary", "graceful"}
 MaxLines = 4
 MaxFwd = 30
 StreamLines <- StreamAll
 UnaryLines <- UnaryAll
INVARIANTS NeverStuck
PROPERTIES SettleOnce InOrder Separate
