SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS N = 4
  Eager = FALSE
  Keep = TRUE
INVARIANTS NeverMistaken Saved Unharmed LaterSucceeds
