SPECIFICATION Spec
VIEW View
INVARIANT Emit
