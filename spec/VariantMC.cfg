SPECIFICATION Spec
INVARIANT Keys
PROPERTIES Independent Moved Copied
VIEW View
CHECK_DEADLOCK FALSE
