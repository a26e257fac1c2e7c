SPECIFICATION Spec
CONSTANTS MaxSteps = 1000  Emit = FALSE
VIEW StOnly
PROPERTY SavedOnlyBySave
PROPERTY ReadOnly
PROPERTY Restart
PROPERTY Grows
PROPERTY Announced
CHECK_DEADLOCK FALSE
