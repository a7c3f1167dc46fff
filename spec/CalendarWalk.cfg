SPECIFICATION Spec
INVARIANTS Closed Closes Weeks
CHECK_DEADLOCK FALSE
