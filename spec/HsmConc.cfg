SPECIFICATION Spec
INVARIANT Conform
ALIAS Alias
CHECK_DEADLOCK FALSE
