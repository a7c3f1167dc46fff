SPECIFICATION Spec
INVARIANTS Right Entry
CHECK_DEADLOCK FALSE
