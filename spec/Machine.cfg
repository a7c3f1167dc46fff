SPECIFICATION Spec
INVARIANTS Legal Split Back AgeSign Undo Turn Settle Down Text
CHECK_DEADLOCK FALSE
