SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS Depth = 4
  Most = 6
  Fault = "none"
VIEW Seen
INVARIANTS Agrees Numbers Small
PROPERTIES OnlyEdits NewNumbers
ACTION_CONSTRAINT Dump
