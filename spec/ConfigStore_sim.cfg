CONSTANTS
 Ids = {"i1", "i2", "i3", "i4"}
 Scopes = {"global", "p", "pq"}
 Namespaces = {"x", "xy"}
 Categories = {"template", "feedback", "convention"}
 Shapes <- Many
 Vecs <- NoVecs
 Acts = {"Resolve"}
INVARIANTS OneScope
PROPERTIES OnlyThat
