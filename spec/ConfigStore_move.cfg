CONSTANTS
 Ids = {"i1", "i2"}
 Scopes = {"global", "p", "pq"}
 Namespaces = {"x", "xy"}
 Categories = {"template", "feedback"}
 Shapes <- One
 Vecs <- NoVecs
 Acts = {}
INVARIANTS OneScope
PROPERTIES OnlyThat
