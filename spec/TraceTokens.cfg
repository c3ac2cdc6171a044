SPECIFICATION Spec
VIEW View
CONSTANT TEXT = FALSE
INVARIANT Conforms
