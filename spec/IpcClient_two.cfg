CONSTANTS
 MaxCalls = 2
 Styles = {"stream", "rpc"}
 MaxLines = 1
 MaxFwd = 1
 StreamLines <- StreamFew
 UnaryLines <- UnaryFew
INVARIANTS NeverStuck
PROPERTIES SettleOnce InOrder Separate
