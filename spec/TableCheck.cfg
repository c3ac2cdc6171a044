SPECIFICATION Spec
VIEW View
INVARIANT BuildOutcome
INVARIANT WellFormed
INVARIANT Accessors
INVARIANT SameLanguage
INVARIANT SameLife
