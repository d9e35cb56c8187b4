SPECIFICATION Spec
CONSTANTS
  MaxLen = 14
  MaxDepth = 4
  Profile = "calls"
INVARIANTS Consistent Balanced
CHECK_DEADLOCK FALSE
