CONSTANTS
 Ids = {"i1", "i2"}
 Scopes = {"global", "p"}
 Namespaces = {"x"}
 Categories = {"template", "feedback"}
 Shapes <- Many
 Vecs <- NoVecs
 Acts = {"Resolve"}
INVARIANTS OneScope
PROPERTIES OnlyThat
