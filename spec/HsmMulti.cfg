SPECIFICATION Spec
INVARIANTS Conform Sane
ALIAS Alias
CHECK_DEADLOCK FALSE
