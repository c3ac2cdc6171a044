SPECIFICATION Spec
VIEW View
INVARIANT Conforms
