CONSTANTS
 Ids = {"i1", "i2"}
 Scopes = {"global", "p"}
 Namespaces = {"x"}
 Categories = {"template"}
 Shapes <- One
 Vecs <- TwoVecs
 Acts = {}
INVARIANTS OneScope
PROPERTIES OnlyThat
