SPECIFICATION Spec
INVARIANT SoundLast
POSTCONDITION Done
CHECK_DEADLOCK FALSE
VIEW View
