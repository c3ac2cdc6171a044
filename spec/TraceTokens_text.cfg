SPECIFICATION Spec
VIEW View
CONSTANT TEXT = TRUE
INVARIANT Conforms
