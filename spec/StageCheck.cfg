SPECIFICATION Spec
VIEW View
INVARIANT Optimizes
INVARIANT WellFormed
INVARIANT DisjointSymbols
INVARIANT Minimal
INVARIANT FewClasses
INVARIANT SameMir
INVARIANT SameNfa
INVARIANT SameDfa
INVARIANT SameTable
