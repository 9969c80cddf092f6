SPECIFICATION Spec
CONSTANTS
  Count = 2
  Uses = {0, 1, 2, 3, 4}
INVARIANTS OwnMeaning Emit
CHECK_DEADLOCK FALSE
