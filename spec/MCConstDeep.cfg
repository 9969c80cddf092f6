SPECIFICATION Spec
CONSTANTS
  Count = 3
  Uses = {0, 1, 2, 3, 4}
INVARIANTS OwnMeaning Emit
CHECK_DEADLOCK FALSE
